from mon.common import *
from mon import gen, oracles as o
from math import comb

ID = "C02"
RULE = ("random instance with one of AV, SAV, minimax AV, lex-minimax AV, Monroe; every algorithm, irresolute and "
        "resolute, against exhaustive evaluation of the published objective (Monroe by max-flow over balanced "
        "districts); non-trivial: not all committees are optimal")
ASSUMPTIONS = []
PLAN = {"quick": 2500, "thorough": 30000}
REQUIRED = ["runs:av", "runs:sav", "runs:minimaxav", "runs:lexminimaxav", "runs:monroe", "ties", "weighted", "mass",
            "alg:gurobi", "alg:mip-cbc", "alg:ortools-cp", "alg:brute-force"]
RULES = ["av", "sav", "minimaxav", "lexminimaxav", "monroe", "sav", "minimaxav", "monroe"]


PINNED = {"inst": {"m": 4, "k": 1, "votes": [[0], [0]] + [[1, 2, 3]] * 6, "w": None, "names": None, "tag": "pinned"},
          "rule": "sav", "s": 1}


def gen_case(rng, idx, tier):
    if idx == 0:
        return PINNED
    rule = RULES[idx % len(RULES)]
    if rule in ("av", "sav"):
        inst = gen.inst(rng, nmax=14, mmax=11, kmax=8, max_committees=500,
                        wkinds=["unit", "unit", "int", "frac", "fracsmall", "huge"])
    elif rule == "minimaxav":
        inst = gen.inst(rng, nmax=9, mmax=7, kmax=6, max_committees=70, wkinds=["unit", "int", "frac"])
    else:
        big = rng.random() < 0.3
        inst = gen.inst(rng, nmax=12 if big else 8, mmax=7 if big else 6, kmax=6, max_committees=70, wkinds=["unit"])
    if rule == "av" and rng.random() < 0.2:
        inst = gen.near(rng, inst)[0]
    elif idx % 19 == 18:
        wk = inst["tag"].split("/")[-1:] if rule != "lexminimaxav" else ["unit"]
        inst = gen.wide(rng, wkinds=wk, max_committees=70) if rng.random() < 0.6 else gen.crowd(rng, wkinds=wk, mass=100 if rule in ("monroe", "lexminimaxav") else 300)
    return {"inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}


def optimum(rule, m, k, votes, w):
    if rule in ("av", "sav"):
        return o.sep_opt(rule, m, k, votes, w)
    if rule == "minimaxav":
        return o.mav_opt(m, k, votes)
    if rule == "lexminimaxav":
        return o.lexmav_opt(m, k, votes)
    return o.monroe_opt(m, k, votes)


def run_case(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    want, _ = optimum(rule, m, k, votes, w)
    if len(want) > 1:
        mon.count("ties")
    if not is_unit(inst):
        mon.count("weighted")
    if len(votes) >= 60:
        mon.count("mass")
    if len(want) < comb(m, k):
        mon.seen(rule, m, k, sorted(map(sorted, votes)), w)
    for alg in algs(rule):
        d = "%s/%s %s" % (rule, alg, show(inst))
        for resolute in (False, True):
            prof = profile(inst, case["s"])
            got = compute(mon, rule, prof, k, algorithm=alg, resolute=resolute)
            mon.count("runs:" + rule)
            mon.count("alg:" + alg)
            if rule == "sav" and not set(got) <= want or rule == "sav" and not resolute and set(got) != want:
                emu = sav_float_opt(prof, k)
                if set(got) <= emu and (resolute or set(got) == emu):
                    mon.violate("%s: %s, exact scores give %s" % (d, srt(got), srt(want)), "sav-float-ties")
            (judge_resolute if resolute else judge)(mon, got, want, d, "opt:%s:%s" % (rule, alg))
