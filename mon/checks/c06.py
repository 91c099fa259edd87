from mon.common import *
from mon import gen, oracles as o

ID = "C06"
RULE = ("random instance; maximin support with every solver; exact support values (Hall condition over all subsets) for every "
        "round and every tie-breaking universe; non-trivial: some candidate is approved")
ASSUMPTIONS = ["support values of generated instances differ by far more than the solver tolerance or are equal"]
PLAN = {"quick": 2500, "thorough": 30000}
REQUIRED = ["near", "mass", "ties", "weighted", "few-approved", "alg:gurobi", "alg:mip-cbc"]


def gen_case(rng, idx, tier):
    inst = gen.inst(rng, nmax=9, mmax=7, kmax=5, wkinds=["unit", "unit", "int", "frac", "fracsmall", "bigint"])
    if idx % 19 == 18:
        wk = inst["tag"].split("/")[-1:]
        inst = gen.wide(rng, wkinds=wk, mmax=11, nmax=8) if rng.random() < 0.6 else gen.crowd(rng, wkinds=wk, nmax=30, mass=200)
    elif idx % 23 == 22:     # many candidates, few left to choose from: ties among large indices
        m = rng.randint(9, 12)
        votes = [sorted(rng.sample(range(m), rng.choice([2, m - 1, m, m]))) for _ in range(rng.randint(1, 3))]
        inst = {"m": m, "k": rng.randint(m - 3, m - 1), "votes": votes, "w": None, "names": None, "tag": "late"}
    elif idx % 11 == 10:     # supports that differ by less than a thousandth, or not at all
        inst = gen.near(rng, inst, base=1000)[0]
        inst["k"] = min(inst["m"], rng.choice([1, 1, 2, 2, 3]))
    return {"inst": inst, "s": rng.randrange(1 << 30)}


def run_case(case, mon):
    inst, rule = case["inst"], "maximin-support"
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    st, step = o.step_maximin(m, votes, w)
    if any(votes):
        mon.seen(m, k, sorted(map(sorted, votes)), w)
    if not is_unit(inst):
        mon.count("weighted")
    if len(votes) >= 60:
        mon.count("mass")
    if len(frozenset().union(*votes)) < k:
        mon.count("few-approved")
    if inst["tag"].startswith("near"):
        mon.count("near")
    uni = o.first_universe(st, step, k)
    if any(len(t) > 1 for _, t, _ in uni):
        mon.count("ties")
    first = uni[-1][2][0]
    try:
        want = o.universes(st, step, k, cap=60)[0]
    except o.TooLarge:
        want = None
        mon.count("irresolute-too-large")
    for alg in algs(rule):
        desc = "%s/%s %s" % (rule, alg, show(inst))
        mech = "%s:%s" % (rule, alg)
        mon.count("alg:" + alg)
        got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=True)
        mon.eq(got, [first], desc + " resolute", mech + ":resolute")
        # parallel universes are explored in index order: the first one is the resolute one
        got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=False, max_num_of_committees=1)
        mon.eq(got, [first], desc + " first universe", mech + ":first-universe")
        if want is not None:
            got = compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=False)
            judge(mon, got, want, desc, mech)
