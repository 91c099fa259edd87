from mon.common import *
from mon import gen, oracles as o
from math import comb

ID = "C15"
RULE = ("random instance, committee of any size (random, greedy, or a rule's outcome, so that many verdicts are close), every "
        "checker and algorithm, default and custom quotas (below, at and above Hare, up to more than the electorate), against "
        "exhaustive witness search in exact arithmetic over candidate sets; non-trivial: verdict false, or true with a "
        "coalition within one voter of a violation (counted by its instance)")
ASSUMPTIONS = ["quotas given as floats are dyadic so that comparisons have one exact meaning"]
PLAN = {"quick": 9000, "thorough": 60000}
PROPS = ["jr", "pjr", "ejr", "ejr+", "fjr", "core", "pareto"]
REQUIRED = ["threshold"] + ["%s:%s" % (p, v) for p in PROPS for v in (True, False)] + [
    "custom-quota", "quota>total", "weighted", "fractional", "alg:gurobi", "alg:brute-force"]
ALGS = {"jr": [None], "ejr+": [None], "pjr": ["brute-force", "gurobi", "fastest"], "ejr": ["brute-force", "gurobi", "fastest"],
        "fjr": ["brute-force", "gurobi", "fastest"], "core": ["brute-force", "gurobi", "fastest"],
        "pareto": ["brute-force", "gurobi", "fastest"]}
SRC = ["av", "seqpav", "seqphragmen", "seqcc", "equal-shares", "revseqpav", "sav", "trivial"]


def threshold(rng):
    """parties whose weights are exact multiples of the quota, with totals whose float quotients are not integral"""
    m = rng.randint(2, 8)
    k = rng.randint(1, min(m, 7))
    q = F(rng.randint(1, 60), rng.randint(1, 60)) if rng.random() < 0.6 else F(rng.randint(1, 40), k)
    left, votes, w = k, [], []
    while left > 0 and len(votes) < 5:
        j = rng.randint(1, left)
        left -= j
        b = rng.sample(range(m), rng.randint(min(j, m), min(m, j + 1)))
        if rng.random() < 0.4 and j > 1:       # split the party in two voters
            x = q * j * F(rng.randint(1, 5), 7)
            votes += [b, list(b)]
            w += [x, q * j - x]
        else:
            votes.append(b)
            w.append(q * j)
    if left:
        votes.append(rng.sample(range(m), rng.randint(0, m)))
        w.append(q * left)
    com = set()
    for b in votes:                             # most members from the parties, but one short somewhere
        com |= set(rng.sample(b, min(len(b), rng.randint(0, len(b)))))
    com = rng.sample(sorted(com), min(len(com), k))
    com += rng.sample([c for c in range(m) if c not in com], k - len(com))
    if rng.random() < 0.2:
        eps = rng.choice([F(1, 1000), F(-1, 1000)])
        w[0] += eps if w[0] > F(1, 500) else 0
    w = [x.numerator if x.denominator == 1 else str(x) for x in w]
    return {"m": m, "k": k, "votes": votes, "w": None if all(x == 1 for x in w) else w, "names": None, "tag": "threshold"}, com, q


def gen_case(rng, idx, tier):
    if idx % 4 == 3:
        inst, com, q = threshold(rng)
        return {"inst": inst, "com": com, "qs": [None, str(q)] + ([str(q * F(rng.choice([999, 1001]), 1000))] if rng.random() < 0.3 else []),
                "s": rng.randrange(1 << 30), "thr": 1}
    if idx % 8 == 6:
        inst, com = gen.tight(rng)
        return {"inst": inst, "com": com, "qs": [None], "s": rng.randrange(1 << 30)}
    r = rng.random()
    if r < 0.75:
        inst = gen.inst(rng, nmax=8, mmax=7, kmax=6)
    elif r < 0.9:
        inst = gen.inst(rng, nmax=12, nmin=6, mmax=6, kmax=5, wkinds=["unit"])
    else:
        inst = gen.inst(rng, nmax=7, mmax=8, kmax=4, wkinds=["int", "frac", "fracsmall", "huge"])
    if idx % 23 == 22:
        inst = gen.wide(rng, mmax=10, nmax=7) if rng.random() < 0.5 else gen.crowd(rng, nmax=40)
    m, k = inst["m"], inst["k"]
    if rng.random() < 0.45:
        com = rng.choice(SRC)
    else:
        com = rng.sample(range(m), k)
    tot = sum(F(x) for x in gen.W(inst))
    qs = [None]
    for _ in range(2):
        kind = rng.randrange(8)
        q = [tot / (k + 1), tot / (k + 1) + F(1, 100), tot * F(3, 2), tot, tot / rng.randint(1, 6),
             F(rng.randint(1, 12), rng.choice([1, 2, 3, 4])), F(rng.randint(1, 8)), F(rng.randint(2, 40), 8)][kind]
        qs.append(str(q) + ("f" if kind == 7 else ""))
    return {"inst": inst, "com": com, "qs": qs, "s": rng.randrange(1 << 30)}


def call(mon, prop, prof, com, quota, alg, viacheck):
    kw = {}
    if quota is not None:
        kw["quota"] = quota
    if alg:
        kw["algorithm"] = alg
    fn = {"jr": properties.check_JR, "pjr": properties.check_PJR, "ejr": properties.check_EJR,
          "ejr+": properties.check_EJR_plus, "fjr": properties.check_FJR, "core": properties.check_core,
          "pareto": properties.check_pareto_optimality}[prop]
    before = snapshot(prof)
    cb = repr(com)
    try:
        res = properties.check(prop, prof, com, **kw) if viacheck else fn(prof, com, **kw)
    except GurobiError as e:
        if licence(e):
            mon.count("licence")
            return None
        raise
    if snapshot(prof) != before or repr(com) != cb:
        mon.violate("%s changed the profile or committee" % prop, "checker-impure")
    return res


def run_case(case, mon):
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    rng = random.Random(case["s"])
    prof = profile(inst, case["s"])
    com = case["com"]
    if isinstance(com, str):
        if com == "sav" and sav_affected(prof, k):
            com = "av"
        com = sorted(abcrules.compute(com, prof, k, resolute=True)[0])
    if case.get("thr"):
        mon.count("threshold")
    for qtxt in case["qs"]:
        if qtxt is None:
            q, quota = None, None
        else:
            q = F(qtxt.rstrip("f"))
            quota = float(q) if qtxt.endswith("f") else (int(q) if q.denominator == 1 and rng.random() < 0.5 else q)
            mon.count("custom-quota")
            if q > sum(w):
                mon.count("quota>total")
        if q is not None and sum(w) / q > 60:
            continue
        for prop in PROPS:
            if prop == "pareto" and q is not None:
                continue
            want = o.axiom(prop, m, votes, w, com, q)
            mon.count("%s:%s" % (prop, want))
            if not want:
                mon.seen(prop, m, sorted(map(sorted, votes)), w, sorted(com), q)
            for alg in ALGS[prop]:
                if alg == "fastest" and rng.random() < 0.7:
                    continue
                if alg == "brute-force" and prop in ("pjr", "ejr") and len(votes) > 13:
                    continue
                c = rng.choice([list, tuple, set, frozenset, lambda x: CandidateSet(x, num_cand=m)])(com)
                got = call(mon, prop, prof, c, quota, alg, rng.random() < 0.5)
                if got is None:
                    continue
                mon.count("alg:%s" % alg)
                mon.count("verdicts")
                if not is_unit(inst):
                    mon.count("weighted")
                    if any(x.denominator > 1 for x in w):
                        mon.count("fractional")
                mon.check(got is want or (got == want and isinstance(got, bool)),
                          lambda: "%s (algorithm %s, quota %s) of committee %s is %r, definition says %s: m=%d votes=%r w=%r" % (
                              prop, alg, quota, sorted(com), got, want, m, inst["votes"], inst.get("w")),
                          "%s:%s" % (prop, alg))
