from mon.common import *
from mon import gen, oracles as o

ID = "C04"
RULE = ("random instance, one (reverse) sequential Thiele rule; irresolute result against the set of committees reachable "
        "over all tie-breaking decisions (exact marginal scores), resolute result against the smallest-index universe; "
        "non-trivial: at least one voter approves something")
ASSUMPTIONS = []
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 12000, "thorough": 200000}
REQUIRED = ["seq", "revseq", "ties", "weighted", "resolute", "large"]
SIDS = ["pav", "slav", "cc", "geom2", "geom3", "geom1.5", "geom1", "pav", "cc", "slav", "geom0.5", "geom3/4"]


def gen_case(rng, idx, tier):
    sid = SIDS[(idx // 2) % len(SIDS)]
    big = rng.random() < 0.3
    inst = gen.inst(rng, nmax=14 if big else 8, mmax=12 if big else 7, kmax=8,
                    wkinds=["unit", "unit", "int", "frac", "fracsmall", "huge"])
    if rng.random() < 0.08:
        inst = gen.spread(rng, gen.inst(rng, nmax=6, mmax=6, kmax=4, wkinds=["unit", "unit", "int"], names=False))
    if rng.random() < 0.08:
        inst = gen.near(rng, inst)[0]
    if idx % 41 == 40:
        inst = gen.large(rng)
    return {"inst": inst, "dir": "revseq" if idx % 2 else "seq", "sid": sid, "s": rng.randrange(1 << 30)}


def rule_call(case):
    """the public entry points of the rule"""
    d, sid = case["dir"], case["sid"]
    fct = abcrules.compute_seq_thiele_method if d == "seq" else abcrules.compute_revseq_thiele_method
    return fct


def run_case(case, mon):
    inst, sid, d = case["inst"], case["sid"], case["dir"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    if d == "seq":
        st, step = o.step_seqthiele(sid, m, votes, w)
        rounds = k
    else:
        st, step = o.step_revseqthiele(sid, m, votes, w)
        rounds = m - k
    mon.count(d)
    if any(votes):
        mon.seen(d, sid, m, k, sorted(map(sorted, votes)), w)
    if not is_unit(inst):
        mon.count("weighted")
    if m >= 12:
        mon.count("large")
    mech = "%s:%s" % (d, sid[:4])
    desc = "%s%s %s" % (d, sid, show(inst))
    fct = rule_call(case)

    def run(resolute, **kw):
        prof = profile(inst, case["s"])
        before = snapshot(prof)
        if sid not in ("av", "geom1") and not sid.startswith("atleast"):
            res = abcrules.compute(d + sid, prof, k, resolute=resolute, **kw)
        else:
            res = fct(sid, prof, k, resolute=resolute, **kw)
        if snapshot(prof) != before:
            mon.violate("profile changed by " + desc, "profile-changed")
        screen(mon, res, m, k, False, desc)
        mon.count("rule_runs")
        return fsets(res)

    got = run(True)
    mon.count("resolute")
    uni = o.first_universe(st, step, rounds)
    first = uni[-1][2][0] if uni else st[0]
    if any(len(t) > 1 for _, t, _ in uni):
        mon.count("ties")
    mon.eq(got, [first], desc + " resolute", mech + ":resolute")
    if d == "seq":   # parallel universes are explored in index order: the first one is the resolute one
        mon.eq(run(False, max_num_of_committees=1), [first], desc + " first universe", mech + ":first-universe")
    try:
        want, _, paths, width = o.universes(st, step, rounds, cap=3000 if m < 12 else 60)
    except o.TooLarge:
        mon.count("irresolute-too-large")
        return
    judge(mon, run(False), want, desc, mech)
    mon.count("irresolute")
