from mon.common import *
from mon import gen, oracles as o

ID = "C07"
RULE = ("random instance; Equal Shares without completion, with seq-Phragmen, AV and increment completion, all arithmetic "
        "variants, against an exact reference over all tie-breaking universes (resolute: smallest-index universe); "
        "non-trivial: some candidate is affordable")
ASSUMPTIONS = ["the float variant is judged where tied and untied values differ by far more than float rounding"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 12000, "thorough": 120000}
REQUIRED = ["completion:None", "completion:seqphragmen", "completion:av", "completion:increment", "ties", "weighted",
            "few-approved", "phase2", "partial", "near-ties", "large", "alg:float-fractions", "alg:gmpy2-fractions", "alg:standard-fractions"]
RULE_IDS = {None: ["equal-shares-without-completion", "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase"],
            "seqphragmen": ["equal-shares", "rule-x", "equal-shares-with-seqphragmen-completion"],
            "av": ["equal-shares-with-av-completion"], "increment": ["equal-shares-with-increment-completion"]}


def gen_case(rng, idx, tier):
    comp = [None, "seqphragmen", "av", "increment"][idx % 4]
    big = rng.random() < 0.3
    inst = gen.inst(rng, nmax=14 if big else 8, mmax=10 if big else 7, kmax=7,
                    wkinds=["unit", "unit", "int", "frac", "fracsmall", "bigint"])
    if rng.random() < 0.05:
        inst = gen.spread(rng, gen.inst(rng, nmax=6, mmax=6, kmax=4, wkinds=["unit", "unit", "int"], names=False))
    if idx % 41 == 40:
        inst = gen.large(rng, mmax=18) if comp != "increment" else gen.large(rng, mmax=14, nmax=24, kmax=9)
    case = {"inst": inst, "comp": comp, "s": rng.randrange(1 << 30), "id": rng.randrange(10), "fct": rng.random() < 0.3}
    if rng.random() < 0.1:
        case["inst"], safe = gen.near(rng, inst)
        if not safe:
            case["algs"] = gen.EXACT
    return case


def run_case(case, mon):
    inst, comp = case["inst"], case["comp"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    rule = RULE_IDS[comp][case["id"] % len(RULE_IDS[comp])]
    mon.count("completion:%s" % comp)
    if not is_unit(inst):
        mon.count("weighted")
    if m >= 12:
        mon.count("large")
    appr = frozenset().union(*votes)
    if len(appr) < k:
        mon.count("few-approved")
    mech = "%s" % comp
    want = None
    if comp == "increment":
        first, j = o.mes_increment(m, k, votes, w)
        if first is None:
            ok, _ = o.sep_opt("av", m, k, votes, w)
        else:
            mon.count("increments", j - k)
            ok = {first}
            mon.seen(comp, m, k, sorted(map(sorted, votes)), w)
    else:
        end = o.mes_first(m, k, votes, w, F(k) / F(sum(w)))
        if end[0]:
            mon.seen(comp, m, k, sorted(map(sorted, votes)), w)
        if len(end[0]) < k:
            mon.count("phase2")
            if comp is None:
                mon.count("partial")
        try:
            call, cfirst, _ = o.mes_complete(comp, end, m, k, votes, w, cap=2000 if m < 12 else 30)
            ok = {cfirst} if cfirst is not None else call
        except o.TooLarge:
            ok = None
            if comp == "seqphragmen":
                load = [-F(b) / w[v] for v, b in enumerate(end[1])]
                s0, step = o.step_seqphragmen(m, votes, w, end[0], load)
                ok = {o.first_universe(s0, step, k - len(end[0]))[-1][2][0]}
        try:
            ends, _ = o.mes_phase1(m, k, votes, w, cap=1500 if m < 12 else 20)
            if len(ends) > 1:
                mon.count("ties")
            want = set()
            for e in ends:
                want |= o.mes_complete(comp, e, m, k, votes, w, cap=800 if m < 12 else 30)[0]
        except o.TooLarge:
            want = None
            mon.count("irresolute-too-large")
    if inst["tag"].startswith("near"):
        mon.count("near-ties")
    for alg in case.get("algs") or algs(rule):
        desc = "%s/%s %s" % (rule, alg, show(inst))
        mon.count("alg:" + alg)

        def run(resolute):
            if case["fct"]:
                prof = profile(inst, case["s"])
                res = abcrules.compute_equal_shares(prof, k, algorithm=alg, resolute=resolute, completion=comp)
                screen(mon, res, m, k, comp is None, desc)
                return fsets(res)
            return compute(mon, rule, profile(inst, case["s"]), k, partial=comp is None, algorithm=alg, resolute=resolute)

        got = run(True)
        if ok is not None:
            judge_resolute(mon, got, ok, desc + " resolute", mech + ":resolute")
        if want is not None:
            judge(mon, run(False), want, desc, mech)
