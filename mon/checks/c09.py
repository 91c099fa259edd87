from mon.common import *
from mon import gen, oracles as o
from math import comb
import random

ID = "C09"
RULE = ("instances larger than the other checks' (up to 40 voters / 16 candidates, sequential rules 70 x 24); all algorithms "
        "of one rule against each other, irresolute sets equal and every resolute result a member; for Thiele rules, AV and "
        "Monroe the common answer is also scored by the exact reference; non-trivial: more than one algorithm compared")
ASSUMPTIONS = ["weights are small enough that score gaps exceed solver tolerances; model sizes within the restricted solver licence"]
PLAN = {"quick": 1000, "thorough": 9000}
REQUIRED = ["agree:pav", "agree:cc", "agree:monroe", "agree:minimaxav", "agree:minimaxphragmen", "agree:maximin-support",
            "agree:seqphragmen", "agree:equal-shares", "agree:lexcc", "agree:lexminimaxav", "agree:eph", "close"]
OPT = ["pav", "slav", "cc", "geom2", "lexcc", "monroe", "minimaxav", "lexminimaxav", "minimaxphragmen", "pav", "cc", "geom1.5"]
SEQ = ["maximin-support", "seqphragmen", "equal-shares", "equal-shares-with-av-completion",
       "equal-shares-with-increment-completion", "equal-shares-without-completion", "phragmen-enestroem",
       "consensus-rule", "eph"]


def gen_case(rng, idx, tier):
    pool = OPT + SEQ
    rule = pool[idx % len(pool)]
    unit = rule in ("monroe", "lexminimaxav")
    wk = ["unit"] if unit else ["unit", "unit", "int", "frac", "bigint"]
    if rule in ("minimaxphragmen", "maximin-support"):
        inst = gen.inst(rng, nmin=6, nmax=14, mmin=5, mmax=8, kmax=5, max_committees=60, wkinds=wk)
    elif rule in ("lexcc", "lexminimaxav"):
        inst = gen.inst(rng, nmin=6, nmax=16, mmin=5, mmax=9, kmax=5, max_committees=130, wkinds=wk)
    elif rule in ("monroe", "minimaxav"):
        inst = gen.inst(rng, nmin=8, nmax=16 if rule == "monroe" else 24, mmin=6, mmax=9, kmax=5, max_committees=130, wkinds=wk)
    elif rule in OPT and rng.random() < 0.12:    # hundreds of tied winning committees
        m = rng.randint(9, 12)
        inst = gen.inst(rng, nmin=m, nmax=m, mmin=m, mmax=m, kmax=5, max_committees=800, wkinds=["unit"])
        votes = [[(i + j) % m for j in range(rng.choice([1, 1, 2]))] for i in range(m)] if rng.random() < 0.5 else \
            [[i] for i in range(m)]
        inst.update(votes=rng.sample(votes, m), k=rng.randint(3, 5), tag="manyties")
    elif rule in OPT:
        inst = gen.inst(rng, nmin=10, nmax=40, mmin=7, mmax=14 if tier == "quick" else 16, kmax=7, max_committees=2100, wkinds=wk)
    else:
        inst = gen.inst(rng, nmin=10, nmax=70, mmin=8, mmax=24, kmax=12, wkinds=wk + ["bigint"])
    if rule == "cc" and rng.random() < 0.35:    # big weights, scores that differ by less than a millionth
        m, n = rng.randint(10, 14), rng.randint(24, 44)
        base = 10 ** rng.randint(3, 5)
        inst = {"m": m, "k": rng.randint(3, 4), "votes": [rng.sample(range(m), rng.randint(1, 2)) for _ in range(n)],
                "w": [base + rng.randint(0, 5) for _ in range(n)], "names": None, "tag": "close"}
    return {"inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}


def run_case(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    fam = [a for a in algs(rule) if not (a == "ortools-cp" and any(x.denominator != 1 for x in w))]
    few = rule == "minimaxphragmen" and len(frozenset().union(*votes)) < k
    ref = None
    if rule in ("pav", "slav", "cc", "geom2", "geom1.5"):
        ref = o.thiele_opt(rule, m, k, votes, w)[0]
    elif rule == "lexcc":
        ref = o.lexcc_opt(m, k, votes, w)[0]
    elif rule == "minimaxav":
        ref = o.mav_opt(m, k, votes)[0]
    elif rule == "lexminimaxav":
        ref = o.lexmav_opt(m, k, votes)[0]
    part = rule == "equal-shares-without-completion"
    if rule in OPT:
        order = [a for a in ("brute-force", "branch-and-bound") if a in fam] + \
                [a for a in fam if a not in ("brute-force", "branch-and-bound")]
    else:
        order = ["standard-fractions"] + [a for a in fam if a != "standard-fractions"] if "standard-fractions" in fam else fam
    base = None
    irr = True
    if inst["tag"] == "close":
        mon.count("close")
    if rule in SEQ:
        irr = False not in (abcrules.Rule(rule).resolute_values[0],) and False in abcrules.Rule(rule).resolute_values
        if irr and rule != "eph":
            irr = _few_universes(rule, m, k, votes, w)
    rbase = None
    for alg in order:
        desc = "%s/%s %s" % (rule, alg, show(inst))
        mech = "agree:%s:%s" % (rule, alg)
        prof = profile(inst, case["s"])
        if alg == "ortools-cp":
            for v in prof:
                v.weight = int(v.weight)
        if irr and not (base is not None and len(base) > 60 and alg not in ("branch-and-bound", "brute-force") and rule in OPT):
            got = set(compute(mon, rule, prof, k, partial=part, algorithm=alg, resolute=False))
            if ref is not None and got != ref:
                mon.violate("%s: %s, exact reference %s" % (desc, srt(got), srt(ref)), mech)
            if base is None:
                base = got
            elif got != base:
                mon.violate("%s: %s, algorithm %s gives %s" % (desc, srt(got), order[0], srt(base)), mech)
        got = compute(mon, rule, prof, k, partial=part, algorithm=alg, resolute=True)
        if base is not None:
            judge_resolute(mon, got, base, desc + " resolute", mech)
        elif rule in SEQ:
            if rbase is None:
                rbase = got
            elif got != rbase and rule != "equal-shares-with-av-completion" and rule != "eph":
                mon.violate("%s resolute: %s, algorithm %s gives %s" % (desc, srt(got), order[0], srt(rbase)), mech)
        elif ref is not None:
            judge_resolute(mon, got, ref, desc + " resolute", mech)
    mon.count("agree:" + rule)
    if len(order) > 1:
        mon.seen(rule, m, k, sorted(map(sorted, votes)), w)


def _few_universes(rule, m, k, votes, w):
    try:
        if rule == "seqphragmen":
            st, step = o.step_seqphragmen(m, votes, w)
        elif rule == "phragmen-enestroem":
            st, step = o.step_enestroem(m, k, votes, w)
        elif rule == "consensus-rule":
            st, step = o.step_consensus(m, votes, w)
        elif rule == "maximin-support":
            st, step = o.step_maximin(m, votes, w)
        else:
            ends, _ = o.mes_phase1(m, k, votes, w, cap=150)
            if rule == "equal-shares":
                for e in ends:
                    o.mes_complete("seqphragmen", e, m, k, votes, w, cap=150)
            if rule == "equal-shares-with-av-completion":
                for e in ends:
                    if len(o.mes_complete("av", e, m, k, votes, w)[0]) > 500:
                        return False
            return True
        o.universes(st, step, k, cap=150)
        return True
    except o.TooLarge:
        return False
