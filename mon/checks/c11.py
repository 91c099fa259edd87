from mon.common import *
from mon import gen, oracles as o

ID = "C11"
RULE = ("random instance with integer (rules: also rational) weights; the weighted profile, its expansion into shuffled copies, the "
        "library's own unit/weighted conversions, the merged profile and profiles with all weights scaled by a rational are run "
        "through the same rule and algorithm (irresolute, or resolute for deterministic tie-breaking) or axiom checker and "
        "compared; non-trivial: weights not all equal and result not the set of all committees")
ASSUMPTIONS = ["extreme scalings (10^9, 10^-9) are applied to exact and combinatorial algorithms only: solver and float "
               "algorithms have documented absolute tolerances"]
PLAN = {"quick": 2600, "thorough": 30000}
REQUIRED = ["copies", "scaled", "merged", "checker", "converted-unit", "converted-weighted", "extreme-scale", "resolute-only"]
RULES = [r for r in OPTIMISATION + SEQUENTIAL if r not in UNIT_ONLY and r != "trivial"] + [
    "equal-shares-with-increment-completion", "geom1.5", "seqgeom1.5"]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"]
EXTREME = {"brute-force", "branch-and-bound", "standard", "standard-fractions", "gmpy2-fractions"}
# weights are not copies for leximax-Phragmen (known finding): a pinned, smallest instance
PIN = {"kind": "rule", "rule": "leximaxphragmen", "alg": "gurobi", "scale": "2", "s": 0,
       "inst": {"m": 2, "k": 1, "votes": [[0], [0], [1]], "w": [1, 1, 2], "names": None, "tag": "pin"}}


def gen_case(rng, idx, tier):
    if idx == 0:
        return PIN
    if idx % 4 == 3:
        inst = gen.inst(rng, nmax=5, mmax=6, kmax=5, wkinds=["int"])
        if rng.random() < 0.4:
            inst, com = gen.tight(rng, mmax=6, nmax=5, wkinds=["int"])
            return {"kind": "check", "inst": inst, "com": com, "prop": rng.choice(PROPS), "scale": rng.choice(["2", "1/3", "7/2"]),
                    "q": None, "s": rng.randrange(1 << 30)}
        return {"kind": "check", "inst": inst, "com": rng.sample(range(inst["m"]), inst["k"]) if rng.random() < 0.5 else
                rng.choice(["av", "seqpav", "seqphragmen", "equal-shares"]),
                "prop": PROPS[(idx // 4) % len(PROPS)], "scale": rng.choice(["2", "1/2", "1/3", "7/2", "10", "10007"]),
                "q": rng.choice([None, None, "1/2", "5/4", "3"]), "s": rng.randrange(1 << 30)}
    rule = RULES[(idx - idx // 4) % len(RULES)]
    if rng.random() < 0.3 and rule in SEQUENTIAL and rule not in SLOW:
        inst = gen.inst(rng, nmax=12, nmin=6, mmin=5, mmax=12, kmax=9, wkinds=["int", "bigint"])
    else:
        inst = rule_inst(rng, rule, nmax=4 if rule in SLOW else 6, mmax=6, wkinds=["int"])
    if rule in SLOW:
        inst["w"] = [min(x, 3) for x in inst["w"]]
    alg = rng.choice(algs(rule))
    sc = rng.choice(["2", "3", "1/2", "1/3", "3/2", "10", "1/10", "5/7"])
    if alg in EXTREME and rng.random() < 0.4:
        sc = rng.choice(["1000000000", "1/1000000000", "1000000007/3"])
    elif rng.random() < 0.3:
        sc = rng.choice(["1000", "1000000", "100003/7", "1/100", "1/10000"])
    return {"kind": "rule", "rule": rule, "alg": alg, "inst": inst, "scale": sc, "s": rng.randrange(1 << 30)}


def variants(case, rng):
    inst = case["inst"]
    ws = gen.W(inst)
    copies = [b for b, x in zip(inst["votes"], ws) for _ in range(int(x))]
    rng.shuffle(copies)
    out = [("copies", dict(inst, votes=copies, w=None))]
    merged = {}
    for b, x in zip(inst["votes"], ws):
        merged[tuple(sorted(b))] = merged.get(tuple(sorted(b)), 0) + x
    it = list(merged.items())
    rng.shuffle(it)
    out.append(("merged", dict(inst, votes=[list(b) for b, _ in it], w=[x for _, x in it])))
    s = F(case["scale"])
    sw = [s * F(x) for x in ws]
    out.append(("scaled", dict(inst, w=[int(x) if x.denominator == 1 else str(x) for x in sw])))
    return out


def run_case(case, mon):
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    rng = random.Random(case["s"])
    base = profile(inst, case["s"])
    profs = [(n, profile(v, case["s"] + 1)) for n, v in variants(case, rng)]
    p = profile(inst, case["s"] + 2)
    for v in p:
        v.weight = int(v.weight)
    p.convert_to_unit_weights()
    profs.append(("converted-unit", p))
    p = profs[0][1].copy()
    p.convert_to_weighted()
    profs.append(("converted-weighted", p))
    desc = show(inst)
    if case["kind"] == "check":
        com = case["com"]
        if isinstance(com, str):
            com = sorted(abcrules.compute(com, base, k, resolute=True)[0])
        prop = case["prop"]
        alglist = ["gurobi", "brute-force"] if prop in ("pareto", "pjr", "ejr", "fjr", "core") else ["fastest"]
        q0 = None
        if case["q"] and prop not in ("pareto", "priceability", "stable-priceability"):
            q0 = F(case["q"]) * F(base.total_weight()) / k
        for alg in alglist:
            res = {}
            for name, prof in [("weighted", base)] + profs:
                if alg == "brute-force" and len(prof) > 9 and prop in ("ejr", "pjr"):
                    continue
                kw = {}
                if q0 is not None:
                    kw["quota"] = q0 * (F(case["scale"]) if name == "scaled" else 1)
                if prop in ("jr", "ejr+", "priceability", "stable-priceability"):
                    r = properties.check(prop, prof, com, **kw)
                else:
                    try:
                        r = properties.check(prop, prof, com, algorithm=alg, **kw)
                    except GurobiError as e:
                        if licence(e):
                            continue
                        raise
                res[name] = r
                mon.count("checker")
            mon.check(len(set(res.values())) == 1, lambda: "%s/%s of %s: verdicts differ %r (scale %s, quota %s) %s" % (
                prop, alg, com, res, case["scale"], q0, desc), "check:" + prop)
            if len(set(gen.W(inst))) > 1:
                mon.seen(prop, desc, com)
        return
    rule, alg = case["rule"], case["alg"]
    if rule == "sav" and any(sav_affected(p, k) for p in [base] + [p for _, p in profs]):
        raise Skip("sav-float-ties")
    part = rule in PARTIAL
    irr = rule not in RESOLUTE_ONLY and irresolute_ok(rule, inst)
    if irr and any(len(p) > 14 for _, p in profs) and rule in SLOW:
        profs = [(n, p) for n, p in profs if len(p) <= 14]
    if not irr:
        mon.count("resolute-only")
        if rule in OPTIMISATION:
            raise Skip("too large")
    kw = {"algorithm": alg, "resolute": not irr}
    if any(x in ("ortools-cp",) for x in [alg]) and F(case["scale"]).denominator > 1:
        profs = [(n, intweights(p, rule, alg) if n != "scaled" else p) for n, p in profs if n != "scaled" or rule != "cc"]
    base = intweights(base, rule, alg)
    want = compute(mon, rule, base, k, part, **kw)
    for name, prof in profs:
        if not (rule == "cc" and alg == "ortools-cp" and name == "scaled"):
            prof = intweights(prof, rule, alg)
        elif any(F(v.weight).denominator > 1 for v in prof):
            continue
        else:
            prof = intweights(prof, rule, alg)
        got = compute(mon, rule, prof, k, part, **kw)
        mon.count(name)
        if name == "scaled" and F(case["scale"]) > 10 ** 6 or F(case["scale"]) < F(1, 10 ** 6):
            mon.count("extreme-scale")
        if set(got) == set(want):
            mon.count("assertions")
            continue
        mech = "rule:%s:%s:%s" % (rule, alg, name)
        if rule == "leximaxphragmen" and name in ("copies", "merged", "converted-unit", "converted-weighted"):
            def lib(pr):
                return o.leximaxphragmen_opt(m, k, [frozenset(v.approved) for v in pr], [F(v.weight) for v in pr], weighted=False)[0]
            try:
                if lib(base) == set(want) and lib(prof) == set(got):
                    mech = "leximax-listed-voters"
            except o.TooLarge:
                pass
        mon.violate("%s/%s: %s gives %s, weighted profile gives %s (scale %s): %s" % (
            rule, alg, name, srt(got), srt(want), case["scale"], desc), mech, stop=False)
    if len(set(gen.W(inst))) > 1:
        mon.seen(rule, alg, desc)
