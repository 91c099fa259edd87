from mon.common import *
from mon import gen, oracles as o

ID = "C17"
RULE = ("instances beyond the size of the definitional oracles (up to 30 voters, 10 candidates, weights): (a) verdicts of all checkers "
        "and algorithms for one committee and one quota never contradict the implication graph; (b) winning committees pass the checkers of the "
        "axioms their rule is proven to satisfy; (c) resolute sequential rules are committee monotone over all sizes, irresolute "
        "ones in the set sense; non-trivial: distinct (rule, axiom, instance) with at least one non-empty cohesive group, i.e. "
        "some candidate approved by a quota of voters")
ASSUMPTIONS = ["leximax-Phragmén: unit weights (see known finding of C11)"]
PLAN = {"quick": 9000, "thorough": 120000}
REQUIRED = ["impl:premise", "axiom:ejr+", "axiom:ejr", "axiom:pjr", "axiom:jr", "axiom:pareto", "monotone:seq", "monotone:revseq",
            "monotone:irresolute", "monroe-divisible", "cohesive", "custom-quota"]
IMPL = [("core", "fjr"), ("fjr", "ejr"), ("ejr", "pjr"), ("pjr", "jr"), ("ejr+", "ejr"), ("priceability", "pjr"),
        ("stable-priceability", "core"), ("stable-priceability", "priceability")]
GUAR = {"pav": ["ejr", "ejr+", "pareto"], "slav": ["pareto"], "geom2": ["pareto"], "av": ["pareto"], "sav": ["pareto"],
        "equal-shares": ["ejr", "ejr+", "priceability"], "equal-shares-with-av-completion": ["ejr", "ejr+"],
        "equal-shares-without-completion": ["ejr", "ejr+", "priceability"], "equal-shares-with-increment-completion": ["ejr", "ejr+"],
        "seqphragmen": ["pjr", "priceability"], "leximaxphragmen": ["pjr"], "maximin-support": ["pjr"], "phragmen-enestroem": ["pjr"],
        "cc": ["jr"], "lexcc": ["jr"], "seqcc": ["jr"], "monroe": ["jr", "pjr"], "greedy-monroe": ["jr", "pjr"]}
SEQ = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom1.5", "seqphragmen", "maximin-support", "consensus-rule"]
REV = ["revseqpav", "revseqslav", "revseqcc", "revseqgeom3"]
SRC = ["seqpav", "seqphragmen", "equal-shares", "av", "revseqpav", "maximin-support", "phragmen-enestroem", "seqcc"]


def gen_case(rng, idx, tier):
    kind = ["impl", "axiom", "axiom", "mono"][idx % 4]
    big = rng.random() < 0.5
    if kind == "impl" and idx % 5 == 0:
        inst, com = gen.tight(rng, mmax=8, nmax=14)
        return {"kind": kind, "inst": inst, "com": com, "s": rng.randrange(1 << 30)}
    if kind == "impl":
        inst = gen.inst(rng, nmax=26 if big else 12, nmin=3, mmax=8, kmax=6)
        if idx % 19 == 18:
            inst = gen.wide(rng, max_committees=300) if rng.random() < 0.5 else gen.crowd(rng, nmax=80)
        com = rng.choice(SRC) if rng.random() < 0.7 else rng.sample(range(inst["m"]), inst["k"])
        return {"kind": kind, "inst": inst, "com": com, "s": rng.randrange(1 << 30)}
    if kind == "axiom":
        rules = list(GUAR)
        rule = rules[(idx // 4 * 2 + idx % 4 - 1) % len(rules)]
        wk = ["unit"] if rule in UNIT_ONLY or rule == "leximaxphragmen" else None
        if rule in SLOW or rule in ("pav", "slav", "geom2", "cc", "monroe"):
            lex = rule in ("leximaxphragmen", "lexcc")
            inst = gen.inst(rng, nmax=12 if rule not in SLOW else 6 if lex else 8, nmin=2, mmax=6 if lex else 7, kmax=4 if lex else 5,
                            wkinds=wk, max_committees=20 if lex else 40)
        else:
            inst = gen.inst(rng, nmax=28 if big else 12, nmin=2, mmax=9, kmax=7, wkinds=wk)
            if rng.random() < 0.1 and rule != "maximin-support":
                inst = (gen.wide if rng.random() < 0.5 else gen.crowd)(rng, wkinds=wk, max_committees=400)
        if rule in UNIT_ONLY and rng.random() < 0.5:
            n = len(inst["votes"])
            ks = [k for k in range(2, inst["m"] + 1) if n % k == 0]
            if ks:
                inst["k"] = rng.choice(ks)
        return {"kind": kind, "inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}
    rule = rng.choice(SEQ + REV)
    inst = gen.inst(rng, nmax=25 if big and rule != "maximin-support" else 9, nmin=1, mmax=11 if rule != "maximin-support" else 6, kmax=8)
    return {"kind": kind, "inst": inst, "rule": rule, "s": rng.randrange(1 << 30)}


def chk(mon, prop, prof, com, alg=None, quota=None):
    try:
        return properties.check(prop, prof, com, **({"algorithm": alg} if alg else {}), **({"quota": quota} if quota else {}))
    except GurobiError as e:
        if licence(e):
            mon.count("licence")
            return None
        raise


def run_case(case, mon):
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    rng = random.Random(case["s"])
    prof = profile(inst, case["s"])
    d = show(inst)
    votes, w = votes_of(inst), weights_of(inst)
    coh = any(sum(x for b, x in zip(votes, w) if c in b) >= sum(w) / k for c in range(m))
    if coh:
        mon.count("cohesive")
    if case["kind"] == "impl":
        com = case["com"]
        if isinstance(com, str):
            com = sorted(abcrules.compute(com, prof, k, resolute=True)[0])
            if rng.random() < 0.3 and len(com) < m:
                com[rng.randrange(k)] = rng.choice([c for c in range(m) if c not in com])
        V = {}
        quota = None
        if rng.random() < 0.4:
            tot = sum(w)
            quota = rng.choice([tot / (k + 1) + F(1, 1000), tot / (k + 1), tot / (k + 2), tot / (2 * k), tot * F(9, 8) / k, tot / 2])
            mon.count("custom-quota")
        for prop in ("jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"):
            if quota and "priceability" in prop:
                continue
            V[prop] = [chk(mon, prop, prof, com, "gurobi" if prop not in ("jr", "ejr+") else None, quota)]
            if prop in ("fjr", "core") or prop in ("pjr", "ejr") and len(prof) <= 14:
                V[prop].append(chk(mon, prop, prof, com, "brute-force", quota))
        for p, vs in V.items():
            vs = [v for v in vs if v is not None]
            mon.check(len(set(vs)) <= 1, lambda: "%s: algorithms disagree on %s for %s: %s" % (p, com, d, V[p]), "impl:algorithms:" + p)
        for a, b in IMPL:
            if a not in V or b not in V:
                continue
            for x in V[a]:
                for y in V[b]:
                    if x is None or y is None:
                        continue
                    if x:
                        mon.count("impl:premise")
                    mon.check(not x or y, lambda: "committee %s satisfies %s but not %s, although the former implies the latter: %s" % (
                        com, a, b, d), "impl:%s=>%s" % (a, b))
        if coh:
            mon.seen("impl", d, com)
        return
    rule = case["rule"]
    if case["kind"] == "axiom":
        irr = rule not in RESOLUTE_ONLY and irresolute_ok(rule, inst)
        kw = {"resolute": not irr}
        if irr:
            kw["max_num_of_committees"] = 12
        kw["algorithm"] = rng.choice(algs(rule))
        if not applicable(rule, kw["algorithm"], inst):
            kw["algorithm"] = "fastest"
        res = compute(mon, rule, intweights(prof, rule, kw["algorithm"]), k, rule in PARTIAL, **kw)
        for ax in GUAR[rule]:
            if rule in ("monroe", "greedy-monroe") and ax == "pjr":
                if len(prof) % k:
                    continue
                mon.count("monroe-divisible")
            for c in res:
                if not c:
                    continue
                if ax == "priceability" and not all(any(c0 in b for b in votes) for c0 in c):
                    continue            # nobody can pay for an unapproved member
                mon.count("axiom:" + ax)
                v = chk(mon, ax, prof, sorted(c), "gurobi" if ax in ("pjr", "ejr", "pareto", "priceability") else None)
                mon.check(v is not False, lambda: "%s (%s) returns %s which the checker says violates %s: %s" % (
                    rule, kw, sorted(c), ax, d), "guarantee:%s:%s" % (rule, ax))
            if coh:
                mon.seen(rule, ax, d)
        return
    prev = None
    for kk in range(1, m + 1):
        got = compute(mon, rule, prof, kk, resolute=True, algorithm=rng.choice(algs(rule)))[0]
        if prev is not None:
            mon.count("monotone:revseq" if rule in REV else "monotone:seq")
            mon.check(prev <= got, lambda: "%s: committee of size %d is %s, of size %d is %s: %s" % (
                rule, kk - 1, sorted(prev), kk, sorted(got), d), "monotone:" + rule)
        prev = got
    mon.seen("mono", rule, d)
    if irresolute_ok(rule, inst, cap=60) and k > 1:
        big = compute(mon, rule, prof, k, resolute=False)
        if irresolute_ok(rule, dict(inst, k=k - 1), cap=60):
            small_ = compute(mon, rule, prof, k - 1, resolute=False)
            mon.count("monotone:irresolute")
            mon.check(all(any(s < b for s in small_) for b in big) and all(any(s < b for b in big) for s in small_),
                      lambda: "%s: irresolute committees of sizes %d and %d do not extend each other: %s / %s: %s" % (
                          rule, k - 1, k, srt(small_), srt(big), d), "monotone:" + rule)
