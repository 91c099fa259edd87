from mon.common import *
from mon import gen, oracles as o

ID = "C10"
RULE = ("every rule with a random algorithm on a random instance (ties frequent): type, size, order, distinctness of the result; "
        "resolute result within the irresolute one; every limit 1..total+2 returns exactly min(limit, total) winning committees; "
        "non-trivial: more than one winning committee")
ASSUMPTIONS = []
PLAN = {"quick": 4500, "thorough": 40000}
REQUIRED = ["multi", "limit<total", "limit>total", "few-approved", "resolute"]
RULES = [r for r in OPTIMISATION + SEQUENTIAL] + ["rule-x", "equal-shares-with-seqphragmen-completion", "geom1.5"] + OTHER


def HANG(case):
    return (case["rule"] in SEQUENTIAL + OTHER) and case["rule"] not in SLOW


def gen_case(rng, idx, tier):
    rule = RULES[idx % len(RULES)]
    inst = rule_inst(rng, rule, nmax=6 if rng.random() < 0.6 else 10, mmax=8)
    if rng.random() < 0.15 and rule not in SLOW and rule not in OPTIMISATION:
        inst = gen.inst(rng, nmax=4, mmin=10, mmax=13, kmax=4, wkinds=["unit"])
    if rng.random() < 0.15 and (rule in SEQUENTIAL or rule in ("av", "eph")) and rule not in SLOW:
        inst = gen.spread(rng, gen.inst(rng, nmax=6, mmax=6, kmax=4, wkinds=["unit", "unit", "int"], names=False))
    alg = rng.choice(algs(rule))
    if not applicable(rule, alg, inst):
        alg = "fastest"
    return {"inst": inst, "rule": rule, "alg": alg, "s": rng.randrange(1 << 30)}


def contract(mon, res, m, k, partial, desc, mech):
    screen(mon, res, m, k, partial, desc)
    for c in res:
        mon.check(isinstance(c, CandidateSet), lambda: "%s: element %r of type %s" % (desc, c, type(c).__name__), mech + ":type")
    bystr = [str(c) for c in res] == sorted(str(c) for c in res)
    lists = [sorted(c) for c in res]
    mon.check(bystr or (m > 10 and lists == sorted(lists)), lambda: "%s: not sorted: %r" % (desc, res), mech + ":order")


def run_case(case, mon):
    inst, rule, alg = case["inst"], case["rule"], case["alg"]
    m, k = inst["m"], inst["k"]
    part = rule in PARTIAL
    desc = "%s/%s %s" % (rule, alg, show(inst))
    mech = "%s:%s" % (rule, alg)

    def run(**kw):
        prof = intweights(profile(inst, case["s"]), rule, alg)
        res = raw_compute(rule, prof, k, algorithm=alg, **kw)
        mon.count("rule_runs")
        contract(mon, res, m, k, part, desc + " %r" % kw, mech)
        return fsets(res)

    one = run(resolute=True)
    mon.eq(len(one), 1, desc + ": committees in resolute mode", mech)
    mon.count("resolute")
    if len(frozenset().union(*votes_of(inst))) < k:
        mon.count("few-approved")
    if rule in RESOLUTE_ONLY or not irresolute_ok(rule, inst):
        return
    full = run(resolute=False)
    mon.check(one[0] in full, lambda: "%s: resolute %s not among irresolute %s" % (desc, srt(one), srt(full)), mech + ":member")
    total = len(full)
    if total > 1:
        mon.count("multi")
        mon.seen(rule, alg, m, k, sorted(map(sorted, votes_of(inst))), weights_of(inst))
    for lim in sorted({1, 2, total - 1, total, total + 2}):
        if lim < 1:
            continue
        got = run(resolute=False, max_num_of_committees=lim)
        mon.count("limit<total" if lim < total else "limit>total")
        mon.eq(len(got), min(lim, total), desc + ": committees for limit %d (total %d)" % (lim, total), mech + ":limit")
        mon.check(set(got) <= set(full), lambda: "%s limit %d: %s not all winning" % (desc, lim, srt(got)), mech + ":limit")
