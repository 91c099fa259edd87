from mon.common import *
from mon import gen, oracles as o
from math import comb

ID = "C03"
RULE = ("random instance; minimax-Phragmen (Gurobi, CBC) and leximax-Phragmen (Gurobi), irresolute, resolute and with "
        "lexicographic tie-breaking, against exact load bounds by Hall's theorem over all committees; "
        "non-trivial: not all committees are optimal")
ASSUMPTIONS = ["load differences of the generated instances are far above the solvers' tolerances"]
PLAN = {"quick": 1000, "thorough": 12000}
REQUIRED = ["runs:minimaxphragmen", "runs:leximaxphragmen", "ties", "weighted", "few-approved", "many-voters", "mass", "lexicographic"]

PINNED = [    # total weight 705 (repaired defect: loads below the accuracy of CBC), total weight of order 10^7
    {"inst": {"m": 7, "k": 4, "votes": [[1, 2, 5], [0, 4, 5], [3, 4, 5], [0, 4, 6], [0, 1, 2, 3, 4, 5, 6], [1, 2, 4], [0, 2, 3], [0, 4, 5],
                                        [0, 1, 5], [1, 3, 5], [0, 4, 5], [0, 1, 2], [3, 5, 6], [0, 3, 6], [2, 3, 6], [0, 1, 3], [0, 1, 2],
                                        [1, 3], [2, 3, 6]],
              "w": [60, 39, 10, 58, 31, 25, 55, 60, 39, 51, 32, 24, 26, 34, 60, 15, 30, 17, 39], "names": None, "tag": "pinned/bigint"},
     "rule": "minimaxphragmen", "s": 1},
    {"inst": {"m": 4, "k": 2, "votes": [[0], [0, 1], [1, 2], [3], [2, 3]],
              "w": [3000000, 2000000, 3000000, 2000000, 1000000], "names": None, "tag": "pinned/huge"},
     "rule": "leximaxphragmen", "s": 1},
    {"inst": {"m": 4, "k": 2, "votes": [[0], [0, 1], [1, 2], [3], [2, 3]],
              "w": [3000000, 2000000, 3000000, 2000000, 1000000], "names": None, "tag": "pinned/huge"},
     "rule": "minimaxphragmen", "s": 1}]


def gen_case(rng, idx, tier):
    if idx < len(PINNED):
        return PINNED[idx]
    rule = "leximaxphragmen" if idx % 2 else "minimaxphragmen"
    wk = ["unit", "unit", "int", "frac", "fracsmall"]
    inst = gen.inst(rng, nmax=6 if idx % 2 else 7, mmax=6, kmax=5, max_committees=36, wkinds=wk)
    if idx % 10 == 9:    # disjoint and nested supporter groups: committees that differ only in the smaller loads
        m, n, votes, i = rng.randint(3, 4), rng.randint(6, 8), [], 0
        while len(votes) < n:
            size = rng.randint(1, 4)
            group = [i % m] + ([rng.randrange(m)] if rng.random() < 0.3 else [])
            votes += [list(dict.fromkeys(group + ([rng.randrange(m)] if rng.random() < 0.25 else []))) for _ in range(size)]
            i += 1
        inst = {"m": m, "k": 2, "votes": votes[:n], "w": None, "names": None, "tag": "blocks"}
    if idx % 10 in (3, 7):    # small ballots: long load vectors that differ only far down
        m, n = rng.randint(4, 5), rng.randint(6, 8)
        inst = {"m": m, "k": rng.choice([2, 2, 3]), "votes": [rng.sample(range(m), rng.choice([1, 1, 2])) for _ in range(n)],
                "w": None if rng.random() < 0.8 else [rng.choice([1, 1, 2]) for _ in range(n)], "names": None, "tag": "long"}
    if idx % 10 in (2, 6):    # many voters, larger weights
        inst = gen.inst(rng, nmin=8, nmax=24, mmin=3, mmax=7, kmax=5, max_committees=36, wkinds=["unit", "int", "frac", "bigint", "huge"])
        if rng.random() < 0.2:
            inst = gen.crowd(rng, wkinds=["unit", "int", "bigint"], mass=350)
    if len(inst["votes"]) >= 10:
        inst = dict(inst, tag="many/" + inst["tag"])
    return {"inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}


def run_case(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    if rule == "minimaxphragmen":
        want, _ = o.minimaxphragmen_opt(m, k, votes, w)
    else:
        want, _ = o.leximaxphragmen_opt(m, k, votes, w, weighted=False)
    if len(want) > 1:
        mon.count("ties")
    if not is_unit(inst):
        mon.count("weighted")
    if len(votes) >= 10:
        mon.count("many-voters")
    if len(votes) >= 60:
        mon.count("mass")
    few = len(frozenset().union(*votes)) < k
    if few:
        mon.count("few-approved")
    if len(want) < comb(m, k):
        mon.seen(rule, m, k, sorted(map(sorted, votes)), w)
    first = sorted(want, key=lambda c: str(sorted(c)))[0]
    kws = [{"resolute": False}, {"resolute": True}]
    if rule == "leximaxphragmen":
        kws.append({"resolute": True, "lexicographic_tiebreaking": True})
    for alg in algs(rule):
        d = "%s/%s %s" % (rule, alg, show(inst))
        mech = "%s:%s:%s%s" % (rule, alg, "weighted" if not is_unit(inst) else "unit", ":few" if few else "")
        for kw in kws:
            prof = profile(inst, case["s"])
            if kw.get("lexicographic_tiebreaking"):
                mon.count("lexicographic")
            try:
                got = compute(mon, rule, prof, k, algorithm=alg, **kw)
            except (Skip, Violation):
                raise
            except Exception as e:
                mon.violate("%s %r raised %r" % (d, kw, e), mech + ":" + type(e).__name__)
            mon.count("runs:" + rule)
            if kw["resolute"]:
                judge_resolute(mon, got, want, d + str(kw), mech)
                if kw.get("lexicographic_tiebreaking"):
                    mon.eq(got[0], first, d + " lexicographic tie-breaking", mech + ":lex")
            else:
                judge(mon, got, want, d + str(kw), mech)
