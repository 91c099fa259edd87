from mon.common import *
from mon import gen, oracles as o

ID = "C05"
RULE = ("random instance; seq-Phragmen, Phragmen-Enestroem, consensus rule with all arithmetic variants; irresolute result "
        "against all tie-breaking universes of an exact reference, resolute result against the smallest-index universe; "
        "non-trivial: some candidate is approved")
ASSUMPTIONS = ["the float variant is judged where tied and untied values differ by far more than float rounding"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 16000, "thorough": 150000}
REQUIRED = ["seqphragmen", "phragmen-enestroem", "consensus-rule", "ties", "weighted", "few-approved", "near-ties", "large",
            "alg:float-fractions", "alg:gmpy2-fractions", "alg:standard-fractions"]
RULES = ["seqphragmen", "phragmen-enestroem", "consensus-rule"]


def gen_case(rng, idx, tier):
    rule = RULES[idx % 3]
    big = rng.random() < 0.3
    inst = gen.inst(rng, nmax=14 if big else 8, mmax=11 if big else 7, kmax=8,
                    wkinds=["unit", "unit", "int", "frac", "fracsmall", "bigint"])
    if rng.random() < 0.08:
        inst = gen.spread(rng, gen.inst(rng, nmax=6, mmax=6, kmax=4, wkinds=["unit", "unit", "int"], names=False))
    if idx % 41 == 40:
        inst = gen.large(rng) if rule == "seqphragmen" else gen.large(rng, mmax=14, nmax=20, kmax=8) if rule == "phragmen-enestroem" \
            else gen.large(rng, mmax=18, nmax=40, kmax=9)
    case = {"inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}
    if rng.random() < 0.12:
        case["inst"], safe = gen.near(rng, inst)
        if not safe:
            case["algs"] = gen.EXACT
    return case


def reference(rule, m, k, votes, w):
    if rule == "seqphragmen":
        return o.step_seqphragmen(m, votes, w)
    if rule == "phragmen-enestroem":
        return o.step_enestroem(m, k, votes, w)
    return o.step_consensus(m, votes, w)


def run_case(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    st, step = reference(rule, m, k, votes, w)
    mon.count(rule)
    if any(votes):
        mon.seen(rule, m, k, sorted(map(sorted, votes)), w)
    if not is_unit(inst):
        mon.count("weighted")
    if len(frozenset().union(*votes)) < k:
        mon.count("few-approved")
    if m >= 12:
        mon.count("large")
    uni = o.first_universe(st, step, k)
    if any(len(t) > 1 for _, t, _ in uni):
        mon.count("ties")
    first = uni[-1][2][0]
    try:
        want = o.universes(st, step, k, cap=2500 if m < 12 else 40)[0]
    except o.TooLarge:
        want = None
        mon.count("irresolute-too-large")
    if inst["tag"].startswith("near"):
        mon.count("near-ties")
    for alg in case.get("algs") or algs(rule):
        desc = "%s/%s %s" % (rule, alg, show(inst))
        mech = "%s:%s" % (rule, alg)
        mon.count("alg:" + alg)
        got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=True)
        mon.eq(got, [first], desc + " resolute", mech + ":resolute")
        # parallel universes are explored in index order: the first one is the resolute one
        got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=False, max_num_of_committees=1)
        mon.eq(got, [first], desc + " first universe", mech + ":first-universe")
        if want is not None:
            got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=False)
            judge(mon, got, want, desc, mech)
