from mon.common import *
from mon import gen, oracles as o
from abcvoting import scores as sc

ID = "C14"
RULE = ("(a) invalid requests: a valid random request with one parameter replaced by an invalid one, for every rule, algorithm, dedicated "
        "function, checker and constructor; the documented exception class must be raised and nothing changed; (b) valid requests on "
        "degenerate instances (one candidate, one voter, full-size committees, only empty ballots, unapproved candidates, universal "
        "ballots), every rule with every algorithm and mode and every checker: a well-formed result, no exception, no hang; "
        "non-trivial: distinct (request kind, rule, algorithm, instance)")
ASSUMPTIONS = ["algorithms needing a licence the machine lacks (mip-gurobi, models beyond the Gurobi size limit) are outside the domain"]
PLAN = {"quick": 3500, "thorough": 40000}
REQUIRED = ["rejected:k<1", "rejected:k>m", "rejected:empty-profile", "rejected:unknown-rule", "rejected:unknown-alg", "rejected:mode",
            "rejected:limit", "rejected:limit-resolute", "rejected:weights", "rejected:ballot", "rejected:weight", "rejected:names",
            "rejected:committee", "rejected:quota", "rejected:property", "rejected:score", "valid:m=1", "valid:k=m", "valid:all-empty",
            "valid:n=1", "valid-check", "valid:unapproved"]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"]
DEDICATED = {"av": "compute_av", "sav": "compute_sav", "pav": "compute_pav", "slav": "compute_slav", "cc": "compute_cc",
             "lexcc": "compute_lexcc", "seqpav": "compute_seqpav", "seqslav": "compute_seqslav", "seqcc": "compute_seqcc",
             "revseqpav": "compute_revseqpav", "minimaxav": "compute_minimaxav", "lexminimaxav": "compute_lexminimaxav",
             "monroe": "compute_monroe", "greedy-monroe": "compute_greedy_monroe", "seqphragmen": "compute_seqphragmen",
             "equal-shares": "compute_equal_shares", "minimaxphragmen": "compute_minimaxphragmen",
             "leximaxphragmen": "compute_leximaxphragmen", "maximin-support": "compute_maximin_support",
             "phragmen-enestroem": "compute_phragmen_enestroem", "consensus-rule": "compute_consensus_rule",
             "trivial": "compute_trivial_rule", "rsd": "compute_rsd", "eph": "compute_eph"}


def degenerate(rng):
    r = rng.randrange(9)
    m = rng.choice([1, 1, 2, 2, 3, 4])
    n = rng.choice([1, 1, 2, 3, 5])
    k = rng.choice([1, m, m, max(1, m - 1)])
    if r < 2:
        votes = [[] for _ in range(n)]
    elif r == 2:
        votes = [list(range(m)) for _ in range(n)]
    elif r == 3:
        votes = [[0] for _ in range(n)]
    elif r == 4:
        votes = [[m - 1] if rng.random() < .6 else [] for _ in range(n)]
    elif r == 5:
        m = max(m, 2)
        k = rng.choice([1, m])
        votes = [[i % m] for i in range(n)]
    else:
        votes = [[c for c in range(m) if rng.random() < .5] for _ in range(n)]
    w, kind = gen.weights(rng, n, rng.choice(["unit", "unit", "int", "frac", "fracsmall"]))
    return {"m": m, "k": k, "votes": votes, "w": w, "names": None, "tag": "degenerate/" + kind}


def gen_case(rng, idx, tier):
    if idx % 2:
        return {"kind": "invalid", "rule": ALL_RULES[(idx // 2) % len(ALL_RULES)], "s": rng.randrange(1 << 30),
                "inst": gen.inst(rng, nmax=5, mmax=5, kmax=4, wkinds=["unit"])}
    return {"kind": "valid", "inst": degenerate(rng), "s": rng.randrange(1 << 30)}


def rejects(mon, what, fn, exc, desc):
    try:
        r = fn()
    except exc as e:
        mon.count("rejected:" + what)
        return e
    except Exception as e:
        mon.violate("%s: raised %r instead of %s" % (desc, e, exc), "reject:%s:wrong-exception" % what)
    mon.violate("%s: accepted, returned %r" % (desc, r), "reject:%s:accepted" % what)


def invalid(case, mon):
    inst, rule = case["inst"], case["rule"]
    rng = random.Random(case["s"])
    m, k = inst["m"], inst["k"]
    prof = profile(inst, case["s"])
    before = snapshot(prof)
    alg = rng.choice(algs(rule) + ["fastest"])
    R = abcrules.Rule(rule)
    irr = False in R.resolute_values
    modes = list(R.resolute_values)

    def callers():
        out = [("compute", lambda p, kk, **kw: abcrules.compute(rule, p, kk, **kw)),
               ("Rule.compute", lambda p, kk, **kw: abcrules.Rule(rule).compute(p, kk, **kw))]
        if rule in DEDICATED:
            out.append((DEDICATED[rule], getattr(abcrules, DEDICATED[rule])))
        return out
    name, fn = rng.choice(callers())
    d = "%s(%s, %s)" % (name, rule, show(inst))
    kw = {"algorithm": alg, "resolute": rng.choice(modes)}
    for bad in (0, -1, -m):
        rejects(mon, "k<1", lambda: fn(prof, bad, **kw), ValueError, d + " committeesize %d %r" % (bad, kw))
    for bad in (m + 1, m + 7):
        rejects(mon, "k>m", lambda: fn(prof, bad, **kw), ValueError, d + " committeesize %d %r" % (bad, kw))
    rejects(mon, "empty-profile", lambda: fn(Profile(m), k, **kw), ValueError, d + " without voters %r" % kw)
    foreign = [a for a in abcrules.ALGORITHM_NAMES if a not in R.algorithms]
    for bad in ["", "nonsense", rng.choice(foreign)]:
        rejects(mon, "unknown-alg", lambda: fn(prof, k, algorithm=bad, resolute=kw["resolute"]), abcrules.UnknownAlgorithm,
                d + " algorithm %r" % bad)
    for r in (True, False):
        if r not in modes:
            rejects(mon, "mode", lambda: fn(prof, k, algorithm=alg, resolute=r), NotImplementedError, d + " resolute=%s %s" % (r, alg))
    if irr:
        for bad in (0, -3, 2.5, "2"):
            rejects(mon, "limit", lambda: fn(prof, k, algorithm=alg, resolute=False, max_num_of_committees=bad), ValueError,
                    d + " limit %r %s" % (bad, alg))
        rejects(mon, "limit-resolute", lambda: fn(prof, k, algorithm=alg, resolute=True, max_num_of_committees=2), ValueError,
                d + " limit in resolute mode %s" % alg)
    if rule in UNIT_ONLY:
        wp = profile(inst, 1)
        wp.add_voter(Voter([0], weight=rng.choice([2, F(1, 2)])))
        rejects(mon, "weights", lambda: fn(wp, k, **kw), ValueError, d + " with weights")
        wp = profile(inst, 1)                  # the weights add up to the number of voters, or are all equal, or surround unit ones
        for w in rng.choice([(F(1, 2), F(3, 2)), (2, F(1, 2), F(1, 2)), (F(1, 3), 1, F(5, 3))]):
            wp.add_voter(Voter([0], weight=w))
        rejects(mon, "weights", lambda: fn(wp, k, **kw), ValueError, d + " with weights of average 1")
        wp = profile(dict(inst, w=[rng.choice([2, 3, "1/2"])] * len(inst["votes"])), 1)
        rejects(mon, "weights", lambda: fn(wp, k, **kw), ValueError, d + " with equal weights other than 1")
    bad = rng.choice(["nonsense", "", "PAV", "seq", "revseq", "seqnonsense", "av2", "equal_shares", "seqav", "revseqav", "seqmonroe", "pav "])
    rejects(mon, "unknown-rule", lambda: abcrules.compute(bad, prof, k), abcrules.UnknownRuleIDError, "compute(%r)" % bad)
    rejects(mon, "unknown-rule", lambda: abcrules.get_rule(bad), abcrules.UnknownRuleIDError, "get_rule(%r)" % bad)
    rejects(mon, "unknown-rule", lambda: abcrules.Rule(bad), abcrules.UnknownRuleIDError, "Rule(%r)" % bad)
    for bad in ("geom", "geomx", "geom0", "geom-1", "seqgeomx", "seqgeom0", "revseqgeom"):
        rejects(mon, "unknown-rule", lambda: abcrules.compute(bad, prof, k), ValueError, "compute(%r)" % bad)
    for bad in ("nonsense", "", "PAV", "atleas3", "seqpav"):
        rejects(mon, "score", lambda: scores.get_marginal_scorefct(bad), scores.UnknownScoreFunctionError, "score %r" % bad)
        rejects(mon, "score", lambda: scores.thiele_score(bad, prof, [0]), scores.UnknownScoreFunctionError, "thiele_score %r" % bad)
    rejects(mon, "limit", lambda: abcrules.compute_equal_shares(prof, k, completion="nonsense"), ValueError, "completion=nonsense")
    mon.eq(snapshot(prof), before, "profile after rejected requests", "reject:changed")
    # constructors
    for bad, e in (([m], ValueError), ([-1], ValueError), ([0, 0], ValueError), ([m + 5, 0], ValueError), (["0"], TypeError), ([0.0], TypeError),
                   (["a"], TypeError), ([None], TypeError), (7, TypeError), (None, TypeError), ("01", TypeError), ([F(1, 1)], TypeError)):
        mk = rng.randrange(3)
        tgt = profile(inst, 2)
        b4 = snapshot(tgt)
        f = [lambda: tgt.add_voter(bad), lambda: tgt.add_voters([bad]), lambda: tgt.__setitem__(0, bad)][mk]
        rejects(mon, "ballot", f, e, "ballot %r via way %d" % (bad, mk))
        mon.eq(snapshot(tgt), b4, "profile after rejected ballot %r" % (bad,), "reject:changed")
        if e is TypeError or bad in ([-1], [0, 0]):
            rejects(mon, "ballot", lambda: Voter(bad), e, "Voter(%r)" % (bad,))
        rejects(mon, "ballot", lambda: Voter(bad, num_cand=m), e, "Voter(%r, num_cand=%d)" % (bad, m))
        rejects(mon, "ballot", lambda: CandidateSet(bad, num_cand=m), e, "CandidateSet(%r, num_cand=%d)" % (bad, m))
    for bad in (0, -1, F(-1, 2), -0.5, 0.0):
        rejects(mon, "weight", lambda: Voter([0], weight=bad), ValueError, "weight %r" % bad)
    for bad in (0, -1, -10):
        rejects(mon, "ballot", lambda: Profile(bad), ValueError, "Profile(%d)" % bad)
    rejects(mon, "names", lambda: Profile(m + 1, cand_names=["x"] * m), ValueError, "too few names")
    # checkers
    com = rng.sample(range(m), k)
    prop = rng.choice(PROPS)
    for bad, e in ((com + [m], ValueError), ([-1] + com[1:], ValueError), (com + [com[0]], ValueError), ([str(c) for c in com], TypeError),
                   ([float(c) for c in com], TypeError)):
        rejects(mon, "committee", lambda: properties.check(prop, prof, bad), e, "check(%s, committee %r, m=%d)" % (prop, bad, m))
    for prop2 in ("pareto", "priceability", "stable-priceability"):
        rejects(mon, "quota", lambda: properties.check(prop2, prof, com, quota=F(3, 2)), ValueError, "check(%s, quota)" % prop2)
    for bad in ("nonsense", "EJR", "", "ejr++"):
        rejects(mon, "property", lambda: properties.check(bad, prof, com), ValueError, "check(%r)" % bad)
    if prop not in ("jr", "ejr+"):
        for bad in ("nonsense", "mip-cbc"):
            rejects(mon, "unknown-alg", lambda: properties.check(prop, prof, com, algorithm=bad), NotImplementedError,
                    "check(%s, algorithm=%r)" % (prop, bad))
    mon.eq(snapshot(prof), before, "profile after rejected requests", "reject:changed")
    mon.seen("invalid", rule, alg, name, show(inst))


def valid(case, mon):
    inst = case["inst"]
    rng = random.Random(case["s"])
    m, k = inst["m"], inst["k"]
    if m == 1:
        mon.count("valid:m=1")
    if m == k:
        mon.count("valid:k=m")
    if len(inst["votes"]) == 1:
        mon.count("valid:n=1")
    if not any(inst["votes"]):
        mon.count("valid:all-empty")
    if len(gen.approved(inst)) < m:
        mon.count("valid:unapproved")
    rules = rng.sample(ALL_RULES + ALIASES, 9)
    for rule in rules:
        if rule in UNIT_ONLY and not is_unit(inst):
            continue
        for alg in algs(rule) + ["fastest"]:
            if not applicable(rule, alg, inst):
                continue
            for resolute in abcrules.Rule(rule).resolute_values:
                prof = intweights(profile(inst, rng.randrange(1 << 30)), rule, alg)
                compute(mon, rule, prof, k, rule in PARTIAL, algorithm=alg, resolute=resolute)
                mon.seen(rule, alg, resolute, show(inst))
            if False in abcrules.Rule(rule).resolute_values:
                compute(mon, rule, prof, k, rule in PARTIAL, algorithm=alg, resolute=False, max_num_of_committees=rng.randint(1, 3))
            mon.count("valid-run")
    prof = profile(inst, case["s"])
    com = rng.sample(range(m), k)
    for prop in PROPS:
        for kw in ([{"algorithm": "gurobi"}, {"algorithm": "brute-force"}] if prop in ("pareto", "pjr", "ejr", "fjr", "core") else [{}]):
            q = {}
            if prop not in ("pareto", "priceability", "stable-priceability") and rng.random() < 0.5:
                q = {"quota": rng.choice([F(1, 2), 1, F(7, 3), 100, 2.5])}
            r = properties.check(prop, prof, com, **kw, **q)
            mon.check(isinstance(r, bool), lambda: "check(%s, %s) returned %r" % (prop, com, r), "valid:check")
            mon.count("valid-check")
    r = properties.full_analysis(prof, com)
    mon.check(set(r) == set(PROPS) and all(isinstance(x, bool) for x in r.values()), lambda: "full_analysis: %r" % r, "valid:analysis")
    str(prof), prof.str_compact(), prof.is_party_list()


def run_case(case, mon):
    (invalid if case["kind"] == "invalid" else valid)(case, mon)
