from mon.common import *
from mon import gen, oracles as o

ID = "C01"
RULE = ("random instance (8 ballot recipes x weight kinds) with one Thiele score function; every algorithm "
        "offered for the rule, irresolute and resolute, against exhaustive exact scoring of all committees; "
        "non-trivial: optimum differs from the worst committee")
ASSUMPTIONS = ["solver algorithms are judged on weights <= 60 with small denominators (score gaps far above solver tolerance)"]
PLAN = {"quick": 6000, "thorough": 40000}
REQUIRED = ["runs:gurobi", "runs:mip-cbc", "runs:branch-and-bound", "runs:brute-force", "runs:ortools-cp",
            "ties", "weighted", "lexcc", "mass", "not-decreasing"]
SIDS = ["pav", "pav", "slav", "slav", "cc", "cc", "geom2", "geom3", "geom1.5", "geom10", "geom4", "lexcc", "lexcc"]

FLAT = ["geom1/2", "geom3/4", "geom1", "geom0.25", "geom0.9"]


def gen_case(rng, idx, tier):
    sid = SIDS[idx % len(SIDS)]
    big = rng.random() < 0.25
    if idx % 9 == 8:     # exact-only workload: huge weights / steep bases
        inst = gen.inst(rng, nmax=7, mmax=6, kmax=6, wkinds=["huge", "bigint", "frac"])
        sid = rng.choice(["pav", "slav", "cc", "geom100", "geom7", "geom2"])
        if rng.random() < 0.3:
            inst = gen.near(rng, inst)[0]
        return {"inst": inst, "sid": sid, "algs": ["branch-and-bound", "brute-force"], "s": rng.randrange(1 << 30)}
    if idx % 23 == 22:   # score functions that do not decrease: solvers may refuse, nobody may be wrong
        inst = gen.inst(rng, nmax=8, mmax=7, kmax=5, max_committees=130)
        return {"inst": inst, "sid": rng.choice(FLAT), "algs": None, "s": rng.randrange(1 << 30)}
    if idx % 17 == 16:   # large overlaps under the steepest base solvers can resolve: the last seats are worth 1e-4, 1e-5
        m = rng.randint(6, 8)
        inst = gen.inst(rng, nmax=4, mmin=m, mmax=m, kmax=6, wkinds=["unit", "unit", "int"], recipe=gen._votes_nested)
        inst["k"] = rng.randint(5, min(6, m - 1))
        inst["votes"] = [rng.sample(range(m), rng.randint(m - 2, m)) if rng.random() < 0.8 else b for b in inst["votes"]]
        return {"inst": inst, "sid": "geom10", "algs": None, "s": rng.randrange(1 << 30)}
    if idx % 19 == 18:
        inst = gen.wide(rng) if rng.random() < 0.6 else gen.crowd(rng, mass=300)
        return {"inst": inst, "sid": "geom3" if sid == "geom10" and inst["k"] > 6 else sid, "algs": None, "s": rng.randrange(1 << 30)}
    inst = gen.inst(rng, nmax=12 if big else 8, mmax=9 if big else 6, kmax=6, max_committees=130)
    return {"inst": inst, "sid": sid, "algs": None, "s": rng.randrange(1 << 30)}


def run_case(case, mon):
    inst, sid = case["inst"], case["sid"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    if sid == "lexcc":
        want, opt = o.lexcc_opt(m, k, votes, w)
        mon.count("lexcc")
    else:
        want, opt = o.thiele_opt(sid, m, k, votes, w)
    if len(want) > 1:
        mon.count("ties")
    if not is_unit(inst):
        mon.count("weighted")
    if len(votes) >= 60:
        mon.count("mass")
    from math import comb
    if len(want) < comb(m, k):
        mon.seen(sid, m, k, sorted(map(sorted, votes)), w)
    for alg in case["algs"] or algs(sid):
        if alg == "ortools-cp" and any(x.denominator != 1 for x in w):
            continue
        d = "%s/%s %s" % (sid, alg, show(inst))
        for resolute in (False, True):
            prof = profile(inst, case["s"])
            if alg == "ortools-cp":
                for v in prof:
                    v.weight = int(v.weight)
            try:
                got = compute(mon, sid, prof, k, algorithm=alg, resolute=resolute)
            except ValueError as e:
                if sid in FLAT and k > 1 and alg in ("gurobi", "mip-cbc", "mip-gurobi") and "monotonic" in str(e):
                    mon.count("refused")
                    continue
                raise
            if sid in FLAT:
                mon.count("not-decreasing")
            mon.count("runs:" + alg)
            (judge_resolute if resolute else judge)(mon, got, want, d, "opt:%s:%s" % (sid[:4], alg))
