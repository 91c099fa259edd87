import inspect
from mon.common import *
from mon import gen, oracles as o
from mon.env import Faults, FAKE

ID = "C27"
LEVEL = "fault_enumeration"
RULE = ("every solver-based algorithm of every rule (resolute, irresolute, limited), every solver-based axiom checker and full_analysis: solver invocations "
        "are counted, then the computation is repeated with a fault at chosen invocations (every index for short runs): exception, out of memory, time, "
        "node, work or solution limit, interruption, an early stop with a feasible but worse solution, any other status code, no solver environment, one "
        "fault or all invocations; outcome must be an error or a correct result; the next computation is unaffected; "
        "non-trivial: distinct (operation, instance, invocation index, fault kind) with the fault delivered")
ASSUMPTIONS = ["a solver that reports OPTIMAL or INFEASIBLE is believed; faults never lie about these two",
               "correct results are those of the same algorithm without faults (its correctness is decided by C01-C16), for resolute and limited modes "
               "membership in the unfaulted irresolute result and the right number"]
PLAN = {"quick": 2000, "thorough": 24000}
G_KINDS = ["raise", "timelimit", "interrupt", "worklimit", "nodelimit", "memory", "early9", "early10", "early8", "early11", "early13", "early16",
           "early7", "early15", "early12", "early17", "status4", "status5", "status6", "status7", "status8", "status9", "status10", "status12", "status13", "status14",
           "status15", "status1"]
M_KINDS = ["raise", "timelimit", "interrupt", "worklimit", "nodelimit", "memory", "early", "early"] + ["status%d" % i for i in range(8)]
O_KINDS = ["raise", "timelimit", "interrupt", "worklimit", "nodelimit", "memory", "early", "early"] + ["status%d" % i for i in range(3)]
KINDS = {"gurobi": G_KINDS, "mip-cbc": M_KINDS, "ortools-cp": O_KINDS}
PAIRS = [(r, a) for r in ALL_RULES for a in algs(r) if a in KINDS]
CHECKERS = ["pareto", "pjr", "ejr", "fjr", "core", "priceability", "stable-priceability"]
REQUIRED = (["fired:%s:%s" % p for p in PAIRS] + ["check:" + p for p in CHECKERS] + ["check:%s:%s" % (p, v) for p in CHECKERS for v in (True, False)] +
            ["error", "still-correct", "last-invocation", "first-invocation", "middle-invocation", "all-invocations", "analysis", "ctor", "after"] +
            ["kind:" + k for k in G_KINDS])


def gen_case(rng, idx, tier):
    r = idx % 5
    if r == 3:
        inst = gen.inst(rng, nmax=7, mmax=6, kmax=4, wkinds=["unit", "unit", "int", "frac"])
        return {"kind": "check", "prop": CHECKERS[(idx // 5) % len(CHECKERS)], "inst": inst, "s": rng.randrange(1 << 60)}
    if r == 4 and idx % 10 == 4:
        inst = gen.inst(rng, nmax=6, mmax=5, kmax=3, wkinds=["unit"])
        return {"kind": "analysis", "inst": inst, "s": rng.randrange(1 << 60)}
    rule, alg = PAIRS[(idx * 2 // 3) % len(PAIRS)] if rng.random() < 0.5 else PAIRS[(idx // 3) % len(PAIRS)]
    small = rule in ("leximaxphragmen", "lexminimaxav", "lexcc")
    inst = rule_inst(rng, rule, nmax=4 if small else 6, mmax=4 if small else 6, kmax=2 if small else 4, max_committees=6 if small else 15)
    return {"kind": "rule", "rule": rule, "alg": alg, "inst": inst, "s": rng.randrange(1 << 60)}


def points(rng, n, kinds, tier_all):
    """(index, kind) pairs to try: every index when few, else first, last and some between; a plan for all invocations"""
    idx = list(range(1, n + 1)) if n <= 4 else sorted({1, 2, n - 1, n, rng.randint(1, n), rng.randint(1, n)})
    out = []
    for i in idx:
        for k in rng.sample(kinds, 3 if n <= 4 else 2):
            out.append((i, k))
    # early stops at the first and last invocation are the most telling
    e = [k for k in kinds if k.startswith("early")]
    out += [(n, rng.choice(e)), (rng.randint(1, n), rng.choice(e))]
    out.append(("all", rng.choice(kinds)))
    out.append(("ctor", rng.randint(1, n)))
    return out


def run_fault(mon, f, at, kind):
    """-> (outcome, value) of one faulted run"""
    if at == "all":
        Faults.reset(plan={"all": kind})
    elif at == "ctor":
        Faults.reset(ctor_at=kind if isinstance(kind, int) else 1)
    else:
        Faults.reset(at, kind)
    try:
        r = ("ok", f())
    except GurobiError as e:
        if licence(e):
            raise Skip("licence")
        r = ("error", repr(e)[:200])
    except Exception as e:
        r = ("error", repr(e)[:200])
    fired = Faults.fired
    Faults.reset()
    return r, fired


def explore(mon, rng, f, kinds, correct, desc, mech, prof, tag):
    """f: the computation; correct(value) -> None or a reason; unfaulted run first"""
    Faults.reset()
    base = f()
    n = Faults.calls
    reason = correct(base)
    if reason:
        mon.violate("%s: without faults: %s" % (desc, reason), mech + ":unfaulted")
    if not n:
        mon.count("no-invocation")
        return
    mon.count("invocations", n)
    snap = snapshot(prof)
    verb = output.verbosity
    for at, kind in points(rng, n, kinds, False):
        r, fired = run_fault(mon, f, at, kind)
        if not fired:
            mon.count("not-fired")
            continue
        mon.count("fired:" + tag)
        mon.count("faults")
        mon.count("ctor" if at == "ctor" else "kind:" + kind)
        mon.count("all-invocations" if at == "all" else "ctor" if at == "ctor" else "last-invocation" if at == n else
                  "first-invocation" if at == 1 else "middle-invocation")
        mon.seen(desc, at, kind)
        mon.count("assertions")
        what = "%s with fault %s at solver invocation %s of %d" % (desc, kind, at, n)
        if r[0] == "error":
            mon.count("error")
        else:
            reason = correct(r[1])
            if reason:
                mon.violate("%s: %s" % (what, reason), mech)
            mon.count("still-correct")
        if snapshot(prof) != snap:
            mon.violate("%s: the profile was changed" % what, mech + ":profile")
        if output.verbosity != verb:
            mon.violate("%s: verbosity changed to %s" % (what, output.verbosity), mech + ":verbosity")
        if rng.random() < 0.25:
            after = f()
            mon.count("after")
            reason = correct(after)
            if reason:
                mon.violate("after %s, without faults: %s" % (what, reason), mech + ":after")
    after = f()
    mon.count("after")
    reason = correct(after)
    if reason:
        mon.violate("after faulted runs of %s: %s" % (desc, reason), mech + ":after")


def run_case(case, mon):
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    rng = random.Random(case["s"])
    kind = case["kind"]
    prof = profile(inst, case["s"])
    if kind == "rule":
        rule, alg = case["rule"], case["alg"]
        if not applicable(rule, alg, inst):
            inst = case["inst"] = dict(inst, w=None)
            votes, w = votes_of(inst), weights_of(inst)
            prof = profile(inst, case["s"])
        prof = intweights(prof, rule, alg)
        if not irresolute_ok(rule, inst, 20):
            raise Skip("many-universes")
        if rule == "maximin-support" and (m > 5 or k > 3):
            k = min(k, 2)
        full = fsets(raw_compute(rule, prof, k, algorithm=alg, resolute=False))
        if len(full) > 12:
            raise Skip("many-committees")
        mode = rng.choice(["resolute", "irresolute", "irresolute", "limit", "function", "expected"])
        kw = {"algorithm": alg}
        want = len(full)
        if mode == "resolute":
            kw["resolute"], want = True, 1
        else:
            kw["resolute"] = False
        if mode == "limit":
            kw["max_num_of_committees"] = rng.randint(1, len(full) + 1)
            want = min(want, kw["max_num_of_committees"])
        fs = set(full)
        if mode == "function":
            fn = {"pav": abcrules.compute_pav, "cc": abcrules.compute_cc, "slav": abcrules.compute_slav, "lexcc": abcrules.compute_lexcc,
                  "monroe": abcrules.compute_monroe, "minimaxav": abcrules.compute_minimaxav, "lexminimaxav": abcrules.compute_lexminimaxav,
                  "minimaxphragmen": abcrules.compute_minimaxphragmen, "leximaxphragmen": abcrules.compute_leximaxphragmen,
                  "maximin-support": abcrules.compute_maximin_support}.get(rule)
            if fn is None:
                f = lambda: abcrules.compute_thiele_method(rule, prof, k, **kw)
            else:
                if rule == "leximaxphragmen" and rng.random() < 0.5:
                    kw["resolute"], want, kw["lexicographic_tiebreaking"] = True, 1, True
                f = lambda: fn(prof, k, **kw)
        elif mode == "expected":
            f = lambda: abcrules.compute(rule, prof, k, result=[set(c) for c in full], **kw)
        else:
            f = lambda: abcrules.compute(rule, prof, k, **kw)

        def correct(res):
            got = fsets(res)
            if len(got) != want or len(set(got)) != want or not set(got) <= fs:
                return "returned %s, winning committees are %s (%d expected)" % (srt(got), srt(full), want)
        explore(mon, rng, f, KINDS[alg], correct, "%s/%s %s k=%d %r %s" % (rule, alg, mode, k, {a: b for a, b in kw.items() if a != "algorithm"}, show(inst)),
                "%s:%s" % (rule, alg), prof, "%s:%s" % (rule, alg))
    else:
        com = rng.sample(range(m), k)
        if rng.random() < 0.6:
            com = sorted(abcrules.compute(rng.choice(["seqphragmen", "av", "equal-shares"]), prof, k)[0])
        if kind == "check":
            p = case["prop"]
            if "priceab" not in p and rng.random() < 0.6:
                # prefer a committee that violates the axiom
                for _ in range(40):
                    c2 = rng.sample(range(m), k)
                    if not o.axiom(p, m, votes, w, c2):
                        com = c2
                        break
            if "priceab" in p:
                want = properties.check(p, prof, com)
            else:
                want = o.axiom(p, m, votes, w, com)
            mon.count("check:%s:%s" % (p, want))
            if rng.random() < 0.5:
                f = lambda: properties.check(p, prof, com)
            elif "priceab" in p:
                f = lambda: properties.check_priceability(prof, com, stable="stable" in p)
            else:
                fn = {"pareto": properties.check_pareto_optimality, "pjr": properties.check_PJR, "ejr": properties.check_EJR,
                      "fjr": properties.check_FJR, "core": properties.check_core}[p]
                f = lambda: fn(prof, com, algorithm="gurobi")
            mon.count("check:" + p)
            explore(mon, rng, f, G_KINDS, lambda v: None if v == want else "verdict %r, correct is %r" % (v, want),
                    "%s of %s on %s" % (p, com, show(inst)), "check:" + p, prof, "check")
        else:
            mon.count("analysis")
            want = properties.full_analysis(prof, com)
            explore(mon, rng, lambda: properties.full_analysis(prof, com), G_KINDS,
                    lambda v: None if v == want else "analysis %r, correct is %r" % (v, want),
                    "full_analysis of %s on %s" % (com, show(inst)), "analysis", prof, "analysis")
