import itertools
from mon.common import *
from mon import gen
from abcvoting import scores

ID = "C23"
RULE = ("every rule id x random instance: Rule object, get_rule, compute() and the dedicated function called with the same (or omitted) arguments; "
        "every (rule, algorithm, mode) triple tried and compared with the advertised ones, also with algorithms masked out; unknown ids; correct and "
        "corrupted expected results; non-trivial: distinct (rule, arguments, instance)")
ASSUMPTIONS = ["algorithm mip-gurobi is listed but cannot run here (python-mip finds no Gurobi library), it is not exercised",
               "resolute results of solver-based algorithms are compared by membership in the irresolute result",
               "the random rule rsd is compared with equal random seeds"]
PLAN = {"quick": 4000, "thorough": 40000}

FUN = {
    "av": ("compute_av", {}), "sav": ("compute_sav", {}), "pav": ("compute_pav", {}), "slav": ("compute_slav", {}), "cc": ("compute_cc", {}),
    "lexcc": ("compute_lexcc", {}), "geom2": ("compute_thiele_method", {"scorefct_id": "geom2"}), "seqpav": ("compute_seqpav", {}),
    "revseqpav": ("compute_revseqpav", {}), "seqslav": ("compute_seqslav", {}), "seqcc": ("compute_seqcc", {}), "seqphragmen": ("compute_seqphragmen", {}),
    "minimaxphragmen": ("compute_minimaxphragmen", {}), "leximaxphragmen": ("compute_leximaxphragmen", {}), "maximin-support": ("compute_maximin_support", {}),
    "monroe": ("compute_monroe", {}), "greedy-monroe": ("compute_greedy_monroe", {}), "minimaxav": ("compute_minimaxav", {}),
    "lexminimaxav": ("compute_lexminimaxav", {}), "equal-shares": ("compute_equal_shares", {}),
    "equal-shares-with-av-completion": ("compute_equal_shares", {"completion": "av"}),
    "equal-shares-with-increment-completion": ("compute_equal_shares", {"completion": "increment"}), "phragmen-enestroem": ("compute_phragmen_enestroem", {}),
    "consensus-rule": ("compute_consensus_rule", {}), "trivial": ("compute_trivial_rule", {}), "rsd": ("compute_rsd", {}), "eph": ("compute_eph", {})}
MAIN = list(FUN)
EXTRA = {
    "rule-x": ("compute_rule_x", {}), "rule-x-without-phragmen-phase": ("compute_rule_x", {"skip_phragmen_phase": True}),
    "equal-shares-with-seqphragmen-completion": ("compute_equal_shares", {"completion": "seqphragmen"}),
    "equal-shares-without-completion": ("compute_equal_shares", {"completion": None}),
    "equal-shares-without-phragmen-phase": ("compute_equal_shares", {"completion": None}),
    "geom1.5": ("compute_thiele_method", {"scorefct_id": "geom1.5"}), "geom10": ("compute_thiele_method", {"scorefct_id": "geom10"}),
    "revseqslav": ("compute_revseq_thiele_method", {"scorefct_id": "slav"}), "revseqcc": ("compute_revseq_thiele_method", {"scorefct_id": "cc"}),
    "seqgeom2": ("compute_seq_thiele_method", {"scorefct_id": "geom2"}), "revseqgeom3": ("compute_revseq_thiele_method", {"scorefct_id": "geom3"}),
    "seqgeom1.5": ("compute_seq_thiele_method", {"scorefct_id": "geom1.5"})}
SAME = {"seqpav": ("compute_seq_thiele_method", {"scorefct_id": "pav"}), "seqslav": ("compute_seq_thiele_method", {"scorefct_id": "slav"}),
        "seqcc": ("compute_seq_thiele_method", {"scorefct_id": "cc"}), "revseqpav": ("compute_revseq_thiele_method", {"scorefct_id": "pav"}),
        "pav": ("compute_thiele_method", {"scorefct_id": "pav"}), "slav": ("compute_thiele_method", {"scorefct_id": "slav"}),
        "cc": ("compute_thiele_method", {"scorefct_id": "cc"}), "av": ("compute_separable_rule", {"rule_id": "av"}), "sav": ("compute_separable_rule", {"rule_id": "sav"})}
THIELE = {"gurobi", "mip-gurobi", "mip-cbc", "branch-and-bound", "brute-force"}
FRAC = {"float-fractions", "gmpy2-fractions", "standard-fractions"}
ALG = {"av": {"standard"}, "sav": {"standard"}, "pav": THIELE, "slav": THIELE, "geom2": THIELE, "cc": THIELE | {"ortools-cp"}, "lexcc": {"gurobi", "brute-force"},
       "seqphragmen": FRAC, "minimaxphragmen": {"gurobi", "mip-gurobi", "mip-cbc"}, "leximaxphragmen": {"gurobi"},
       "maximin-support": {"gurobi", "mip-gurobi", "mip-cbc"}, "monroe": {"gurobi", "mip-gurobi", "mip-cbc", "ortools-cp", "brute-force"},
       "greedy-monroe": {"standard"}, "minimaxav": {"gurobi", "mip-gurobi", "ortools-cp", "mip-cbc", "brute-force"}, "lexminimaxav": {"gurobi", "brute-force"},
       "phragmen-enestroem": FRAC, "consensus-rule": FRAC, "trivial": {"standard"}, "rsd": {"standard"}, "eph": FRAC}
SEQ_DEFAULT = {"seqpav", "revseqpav", "seqslav", "seqcc", "seqphragmen", "maximin-support", "greedy-monroe", "equal-shares", "equal-shares-with-av-completion",
               "equal-shares-with-increment-completion", "phragmen-enestroem", "consensus-rule", "rsd", "rule-x", "rule-x-without-phragmen-phase",
               "equal-shares-with-seqphragmen-completion", "equal-shares-without-completion", "equal-shares-without-phragmen-phase", "revseqslav", "revseqcc",
               "seqgeom2", "revseqgeom3", "seqgeom1.5"}
UNKNOWN = ["", "AV", "Pav", "pav ", " pav", "approval", "seq", "revseq", "seqav", "revseqav", "seqphragmén", "phragmen", "mes", "rule_x", "equal_shares", "geom", "geomx",
           "geom-2", "geom0", "geom1/0", "geom2x", "revseqgeomx", "seqgeom0", "seqgeom-1.5", "seqgeom", "seqsav", "seqmonroe", "revseqphragmen", "seqseqpav", "revseqrevseqpav", "seqseq", "lexav", "ccc", "minimax",
           "consensus", "maximin", "leximaxav", "eph ", "rsd2", "trivialrule", "av\n", "seqlexcc", "revseqlexcc", "seqtrivial", "seqrsd"]
SOLVER = {"gurobi", "mip-gurobi", "mip-cbc", "ortools-cp"}
ORDER = MAIN + list(EXTRA)
REQUIRED = ["rule:" + r for r in ORDER] + ["mode:True", "mode:False", "default-mode", "unknown-id", "bad-algorithm", "bad-mode", "masked", "none-available",
            "algorithm-works", "expected:accepted", "expected:rejected", "expected:resolute-accepted", "expected:resolute-rejected", "same-function", "max-committees"] + \
           ["corrupt:" + c for c in ("missing", "extra", "replaced", "empty", "duplicate", "shuffle", "subset-committee", "superset-committee")]


def gen_case(rng, idx, tier):
    rule = ORDER[idx % len(ORDER)]
    kind = ["dispatch", "expected", "algorithms", "dispatch", "expected", "ids"][(idx // len(ORDER)) % 6]
    wk = ["unit"] if rule in UNIT_ONLY else None
    inst = gen.inst(rng, nmax=6, mmax=5, kmax=4, wkinds=wk, max_committees=10, names=False)
    return {"rule": rule, "kind": kind, "inst": inst, "s": rng.randrange(1 << 60)}


def call(f, *a, **kw):
    random.seed(1234)
    try:
        return f(*a, **kw)
    except GurobiError as e:
        if licence(e):
            raise Skip("licence")
        raise


def usable(rule, inst):
    a = [x for x in abcrules.Rule(rule).available_algorithms if x not in UNUSABLE and applicable(rule, x, inst)]
    return a


def run_case(case, mon):
    rng = random.Random(case["s"])
    rule, inst = case["rule"], case["inst"]
    mon.count("rule:" + rule)
    {"dispatch": dispatch, "expected": expected, "algorithms": algorithms, "ids": ids}[case["kind"]](mon, rng, rule, inst)


def outcome(f, *a, **kw):
    try:
        return ("ok", call(f, *a, **kw))
    except Skip:
        raise
    except Violation:
        raise
    except (ValueError, NotImplementedError, RuntimeError, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError) as e:
        return ("error", type(e).__name__, str(e))


def agree(mon, a, b, what, exact):
    mon.count("assertions")
    if a[0] != b[0]:
        mon.violate("%s: %r and %r" % (what, a, b), "dispatch")
    if a[0] == "error":
        if a[1:] != b[1:]:
            mon.violate("%s: raise %r and %r" % (what, a, b), "dispatch-error")
        return
    x, y = fsets(a[1]), fsets(b[1])
    if exact and x != y or not exact and set(x) != set(y):
        mon.violate("%s: %s and %s" % (what, srt(x), srt(y)), "dispatch")
    if any(type(c) is not CandidateSet for c in a[1] + b[1]):
        mon.violate("%s: committees are not CandidateSets: %r" % (what, a[1]), "dispatch-type")


def dispatch(mon, rng, rule, inst):
    prof, k = profile(inst), inst["k"]
    R = abcrules.Rule(rule)
    kw = {}
    default_mode = rule in SEQ_DEFAULT
    if rng.random() < 0.7:
        kw["resolute"] = rng.choice([True, False])
    else:
        mon.count("default-mode")
    if rng.random() < 0.6:
        a = usable(rule, inst)
        if a:
            kw["algorithm"] = rng.choice(a + ["fastest"])
    res = kw.get("resolute", default_mode)
    if not res and rng.random() < 0.3:
        kw["max_num_of_committees"] = rng.choice([1, 2, 3])
        mon.count("max-committees")
    elif rng.random() < 0.1:
        kw["max_num_of_committees"] = rng.choice([0, -1, 1.5, 2 if res else "x", None])
    if rng.random() < 0.08:
        k = rng.choice([0, -1, inst["m"] + 1])
    alg = kw.get("algorithm", "fastest")
    if alg == "fastest":
        alg = R.fastest_available_algorithm()
    if not applicable(rule, alg, inst):
        return
    prof = intweights(prof, rule, alg)
    mon.count("mode:%s" % res)
    exact = alg not in SOLVER
    if not exact and (res or kw.get("max_num_of_committees")):
        # a solver may pick any winner: compare both with the irresolute result only
        exact = None
    desc = "%s k=%d %r on %s" % (rule, k, kw, show(inst))
    mon.seen(desc)
    a = outcome(abcrules.compute, rule, prof, k, **kw)
    others = [("Rule.compute", R.compute, (), {}), ("get_rule", abcrules.get_rule(rule).compute, (), {})]
    name, fixed = FUN.get(rule) or EXTRA[rule]
    others.append((name, getattr(abcrules, name), (), dict(fixed)))
    if rule in SAME and (("algorithm" in kw and "resolute" in kw) or SAME[rule][0] != "compute_separable_rule"):
        others.append((SAME[rule][0], getattr(abcrules, SAME[rule][0]), (), dict(SAME[rule][1])))
        mon.count("same-function")
    explicit = dict(kw)
    explicit.setdefault("resolute", default_mode)
    explicit.setdefault("algorithm", R.fastest_available_algorithm())
    explicit.setdefault("max_num_of_committees", None)
    others.append(("explicit defaults", abcrules.compute, (rule,), {"__kw": explicit}))
    for nm, f, pre, fix in others:
        kk = fix.pop("__kw", None)
        b = outcome(f, *pre, profile=prof, committeesize=k, **dict(kk if kk is not None else kw, **fix))
        if exact is None and a[0] == "ok" and b[0] == "ok":
            full = outcome(abcrules.compute, rule, prof, k, resolute=False, algorithm=alg)
            mon.count("assertions")
            if full[0] == "ok" and not (set(fsets(a[1])) <= set(fsets(full[1])) and set(fsets(b[1])) <= set(fsets(full[1])) and len(a[1]) == len(b[1])):
                mon.violate("%s: %r and %s %r, irresolute %r" % (desc, a[1], nm, b[1], full[1]), "dispatch")
        else:
            agree(mon, a, b, "%s: compute() and %s" % (desc, nm), bool(exact))
    if a[0] == "ok" and res and len(a[1]) != 1:
        mon.violate("%s: %d committees in resolute mode" % (desc, len(a[1])), "mode")
    if a[0] == "ok" and a[1]:
        # the default modes are the documented ones
        mon.check(R.resolute_values[0] == default_mode, lambda: "%s: default resolute is %r" % (rule, R.resolute_values[0]), "default-mode")


def expected(mon, rng, rule, inst):
    prof, k = profile(inst), inst["k"]
    R = abcrules.Rule(rule)
    alg = rng.choice(usable(rule, inst) or ["fastest"])
    res = rng.choice(R.resolute_values)
    prof = intweights(prof, rule, alg)
    kw = {"algorithm": alg}
    if res != R.resolute_values[0] or rng.random() < 0.5:
        kw["resolute"] = res
    try:
        base = call(abcrules.compute, rule, prof, k, **kw)
    except ValueError:
        return
    desc = "%s k=%d %r on %s" % (rule, k, kw, show(inst))
    size = len(base[0])
    got = set(fsets(base))
    pool = [frozenset(x) for x in itertools.combinations(range(inst["m"]), size)]
    other = [x for x in pool if x not in got]
    lst = list(fsets(base))
    rng.shuffle(lst)
    cor = rng.choice(["missing", "extra", "replaced", "empty", "duplicate", "shuffle", "subset-committee", "superset-committee"])
    if cor == "missing":
        lst = lst[1:]
    elif cor == "extra":
        if not other:
            return
        lst.insert(rng.randint(0, len(lst)), rng.choice(other))
    elif cor == "replaced":
        if not other:
            return
        lst[0] = rng.choice(other)
    elif cor == "empty":
        lst = []
    elif cor == "duplicate":
        lst.append(lst[0])
    elif cor == "subset-committee":
        if not lst[0]:
            return
        lst[0] = frozenset(sorted(lst[0])[1:])
    elif cor == "superset-committee":
        free = [c for c in range(inst["m"]) if c not in lst[0]]
        if not free:
            return
        lst[0] = lst[0] | set(rng.sample(free, rng.randint(1, min(2, len(free)))))
    exp = [CandidateSet(x) if rng.random() < 0.5 else set(x) for x in lst]
    ok = (set(lst) == got) if not res else (lst and got <= set(lst))
    mon.count("corrupt:" + cor)
    mon.seen((desc, repr(exp)))
    mon.count("assertions")
    snap = repr(exp)
    try:
        out = call(abcrules.compute, rule, prof, k, result=exp, **kw)
    except ValueError:
        if ok and alg not in SOLVER or ok and not res:
            mon.violate("%s: expected result %r rejected, computed %r" % (desc, exp, base), "expected-rejected")
        mon.count("expected:resolute-rejected" if res else "expected:rejected")
    else:
        if set(fsets(out)) != got and alg not in SOLVER:
            mon.violate("%s: result differs when an expected result is passed: %r and %r" % (desc, out, base), "expected-changes")
        if not (set(fsets(out)) == set(lst) if not res else set(fsets(out)) <= set(lst)):
            mon.violate("%s: expected result %r accepted, computed %r" % (desc, exp, out), "expected-accepted")
        mon.count("expected:resolute-accepted" if res else "expected:accepted")
    if repr(exp) != snap:
        mon.violate("%s: the expected result was changed" % desc, "purity")


def algorithms(mon, rng, rule, inst):
    prof, k = profile(inst), inst["k"]
    R = abcrules.Rule(rule)
    want = ALG.get(rule) or (FRAC if rule.startswith(("equal", "rule-x")) else THIELE if rule.startswith("geom") else {"standard"})
    mon.check(set(R.algorithms) == want and len(R.algorithms) == len(want), lambda: "%s advertises %r" % (rule, R.algorithms), "advertised")
    mon.check(R.rule_id == rule and R.shortname and R.longname, lambda: "%s: names %r %r %r" % (rule, R.rule_id, R.shortname, R.longname), "names")
    mon.check(R.available_algorithms == [a for a in R.algorithms if a in abcrules.available_algorithms], lambda: "%s: available %r" % (rule, R.available_algorithms), "available")
    mon.check(R.fastest_available_algorithm() == R.available_algorithms[0], "fastest", "fastest")
    mon.check(set(abcrules.ALGORITHM_NAMES) >= set(R.algorithms), "unnamed algorithm", "names")
    for alg in list(abcrules.ALGORITHM_NAMES) + ["fast", "", "Standard", "brute force", None]:
        if alg in R.algorithms:
            if alg in UNUSABLE or not applicable(rule, alg, inst):
                continue
            if rng.random() < 0.5 and alg in SOLVER:
                continue
            p = intweights(profile(inst), rule, alg)
            for res in (True, False):
                o = outcome(abcrules.compute, rule, p, k, algorithm=alg, resolute=res)
                mon.count("assertions")
                if res in R.resolute_values:
                    if o[0] != "ok":
                        if o[1] == "ValueError" and rule in ("minimaxav",):
                            continue
                        mon.violate("%s: advertised algorithm %s with resolute=%s failed: %r on %s" % (rule, alg, res, o, show(inst)), "advertised-fails")
                    else:
                        mon.count("algorithm-works")
                else:
                    mon.count("bad-mode")
                    if o[0] != "error" or o[1] != "NotImplementedError":
                        mon.violate("%s: unsupported resolute=%s gave %r" % (rule, res, o), "mode")
        else:
            o = outcome(abcrules.compute, rule, prof, k, algorithm=alg, resolute=R.resolute_values[0])
            mon.count("bad-algorithm")
            mon.count("assertions")
            if o[0] != "error" or o[1] != "UnknownAlgorithm":
                mon.violate("%s: algorithm %r, not advertised, gave %r" % (rule, alg, o), "unadvertised")
    mon.seen((rule, show(inst)))
    # mask algorithms as if solvers were missing
    saved = abcrules.available_algorithms
    try:
        keep = [a for a in saved if a not in ("gurobi", "mip-gurobi", "mip-cbc", "ortools-cp", "gmpy2-fractions") or rng.random() < 0.5]
        abcrules.available_algorithms = keep
        M = abcrules.Rule(rule)
        left = [a for a in M.algorithms if a in keep]
        mon.check(list(M.available_algorithms) == left, lambda: "%s with %r available: %r" % (rule, keep, M.available_algorithms), "masked")
        if left:
            mon.check(M.fastest_available_algorithm() == left[0], lambda: "%s with %r available: fastest is %r" % (rule, keep, M.fastest_available_algorithm()), "masked")
            mon.count("masked")
            if left[0] not in UNUSABLE and applicable(rule, left[0], inst) and left[0] not in SOLVER:
                res = rng.choice(M.resolute_values)
                p = intweights(profile(inst), rule, left[0])
                a, b = outcome(abcrules.compute, rule, p, k, resolute=res), outcome(abcrules.compute, rule, p, k, resolute=res, algorithm=left[0])
                agree(mon, a, b, "%s: fastest and %s (only %r available)" % (rule, left[0], keep), True)
        else:
            mon.count("none-available")
            o = outcome(abcrules.compute, rule, prof, k)
            if o[0] != "error" or o[1] != "NoAvailableAlgorithm":
                mon.violate("%s with %r available: %r" % (rule, keep, o), "masked")
    finally:
        abcrules.available_algorithms = saved


def ids(mon, rng, rule, inst):
    mon.check(set(abcrules.MAIN_RULE_IDS) == set(MAIN) and len(abcrules.MAIN_RULE_IDS) == len(MAIN), lambda: "main rule ids are %r" % (abcrules.MAIN_RULE_IDS,), "main-ids")
    prof, k = profile(inst), inst["k"]
    for bad in rng.sample(UNKNOWN, 6) + [rule + "x", rule.upper(), "x" + rule]:
        if bad in FUN or bad in EXTRA:
            continue
        mon.count("unknown-id")
        mon.count("assertions")
        for f in (lambda: abcrules.Rule(bad), lambda: abcrules.get_rule(bad), lambda: abcrules.compute(bad, prof, k)):
            try:
                x = f()
            except ValueError:
                pass
            else:
                mon.violate("unknown rule id %r gave %r" % (bad, x), "unknown-id")
    mon.seen((rule, "ids", rng.random()))
    import importlib.util as iu
    a = set(abcrules.available_algorithms)
    have = lambda *ms: all(iu.find_spec(x) for x in ms)
    want = {"brute-force", "branch-and-bound", "standard", "standard-fractions", "float-fractions", "mip-cbc"}
    for alg, mod in (("gurobi", "gurobipy"), ("mip-gurobi", "gurobipy"), ("gmpy2-fractions", "gmpy2"), ("ortools-cp", "ortools")):
        if have(mod):
            want.add(alg)
    mon.check(a == want, lambda: "available algorithms %s, installed %s" % (sorted(a), sorted(want)), "available")
