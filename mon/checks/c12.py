from mon.common import *
from mon import gen, oracles as o

ID = "C12"
RULE = ("random instance; voters permuted, candidates renamed by a random permutation, ballots listed in another order and container, "
        "candidate names changed; irresolute results (and every checker's verdict) must be equal up to the renaming; "
        "non-trivial: the renaming moves some winning committee")
ASSUMPTIONS = []
PLAN = {"quick": 4000, "thorough": 40000}
REQUIRED = ["voters", "candidates", "names", "checker", "moved", "weighted", "universes"]
RULES = [r for r in OPTIMISATION + SEQUENTIAL if r != "trivial"] + ["geom1.5", "rule-x"]
MANY = ["seqphragmen", "phragmen-enestroem", "consensus-rule", "equal-shares", "equal-shares-with-av-completion",
        "equal-shares-without-completion", "seqpav", "revseqpav", "eph", "seqcc"]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"]


def gen_case(rng, idx, tier):
    if idx % 4 == 3:
        inst = gen.inst(rng, nmax=7, mmax=6, kmax=5)
        if rng.random() < 0.6:
            inst, com = gen.tight(rng, wkinds=["int", "frac"] if rng.random() < 0.15 else None)
            prop = rng.choice([p for p in PROPS if p != "stable-priceability"])
            if rng.random() < 0.5:
                prop = rng.choice(["core", "fjr", "pareto", "ejr"])
            return {"kind": "check", "inst": inst, "com": com, "prop": prop, "s": rng.randrange(1 << 30)}
        return {"kind": "check", "inst": inst, "com": rng.sample(range(inst["m"]), inst["k"]) if rng.random() < 0.5 else
                rng.choice(["av", "seqpav", "seqphragmen", "equal-shares"]),
                "prop": PROPS[(idx // 4) % len(PROPS)], "s": rng.randrange(1 << 30)}
    if idx % 8 == 2:    # many small elections with several rounds: tie-breaking orders that meet again
        rule = MANY[(idx // 8) % len(MANY)]
        insts = []
        for _ in range(20):
            m = rng.randint(4, 6)
            insts.append({"m": m, "k": rng.randint(3, m - 1), "names": None, "w": None, "tag": "universes",
                          "votes": [rng.sample(range(m), rng.randint(1, 3)) for _ in range(rng.randint(2, 5))]})
        return {"kind": "many", "rule": rule, "alg": rng.choice(algs(rule)), "insts": insts, "s": rng.randrange(1 << 30)}
    rule = RULES[(idx - idx // 4) % len(RULES)]
    inst = rule_inst(rng, rule, nmax=8, mmax=7)
    if rng.random() < 0.2 and rule in SEQUENTIAL and rule not in SLOW:
        inst = gen.inst(rng, nmax=9, mmin=9, mmax=14, kmax=5)
    if rng.random() < 0.1 and (rule in SEQUENTIAL or rule in ("av", "eph")) and rule not in SLOW:
        inst = gen.spread(rng, gen.inst(rng, nmax=6, mmax=6, kmax=4, wkinds=["unit", "unit", "int"], names=False))
    alg = rng.choice(algs(rule))
    if not applicable(rule, alg, inst):
        alg = "fastest"
    return {"kind": "rule", "rule": rule, "alg": alg, "inst": inst, "s": rng.randrange(1 << 30)}


def run_case(case, mon):
    if case["kind"] == "many":
        for i, inst in enumerate(case["insts"]):
            try:
                run_case(dict(case, kind="rule", inst=inst, s=case["s"] + i), mon)
                mon.count("universes")
            except Skip:
                pass
        return
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    n = len(inst["votes"])
    rng = random.Random(case["s"])
    ident = list(range(m))
    perm = rng.sample(range(m), m)
    vord = rng.sample(range(n), n)

    def rename(p):
        votes = [[p[c] for c in b] for b in inst["votes"]]
        for b in votes:
            rng.shuffle(b)
        return dict(inst, votes=votes)
    other = rng.sample(gen.NAMEPOOL + ["n%d" % i for i in range(40)], m)
    vars_ = [("voters", ident, profile(inst, case["s"] + 1, order=vord)),
             ("candidates", perm, profile(rename(perm), case["s"] + 2)),
             ("names", ident, profile(dict(rename(ident), names=None if inst.get("names") else other), case["s"] + 3)),
             ("all", perm, profile(dict(rename(perm), names=other), case["s"] + 4, order=rng.sample(range(n), n)))]
    base = profile(inst, case["s"])
    if not is_unit(inst):
        mon.count("weighted")
    desc = show(inst)
    if case["kind"] == "check":
        com = case["com"]
        if isinstance(com, str):
            com = sorted(abcrules.compute(com, base, k, resolute=True)[0])
        prop = case["prop"]
        for alg in (["gurobi", "brute-force"] if prop in ("pareto", "pjr", "ejr", "fjr", "core") else [None]):
            kw = {"algorithm": alg} if alg else {}
            want = properties.check(prop, base, com, **kw)
            for name, p, prof in vars_:
                c2 = [p[c] for c in com]
                rng.shuffle(c2)
                got = properties.check(prop, prof, c2, **kw)
                mon.count("checker")
                mon.check(got == want, lambda: "%s/%s of %s: %s, after permuting %s (%s): %s; %s" % (
                    prop, alg, com, want, name, p, got, desc), "check:%s:%s" % (prop, name))
        mon.seen(prop, desc, com)
        return
    rule, alg = case["rule"], case["alg"]
    if rule == "sav" and any(sav_affected(p, k) for p in [base] + [p for _, _, p in vars_]):
        raise Skip("sav-float-ties")
    if not irresolute_ok(rule, inst):
        raise Skip("too many tied committees")
    part = rule in PARTIAL
    want = set(compute(mon, rule, intweights(base, rule, alg), k, part, algorithm=alg, resolute=False))
    for name, p, prof in vars_:
        got = set(compute(mon, rule, intweights(prof, rule, alg), k, part, algorithm=alg, resolute=False))
        mon.count(name)
        img = {frozenset(p[c] for c in x) for x in want}
        if img != want:
            mon.count("moved")
            mon.seen(rule, alg, desc)
        mon.check(got == img, lambda: "%s/%s: after permuting %s (%s, voter order %s) result is %s, expected %s; %s" % (
            rule, alg, name, p, vord, srt(got), srt(img), desc), "rule:%s:%s" % (rule, name))
