from mon.common import *
from mon import gen, oracles as o
from collections import Counter

ID = "C18"
RULE = ("random instance (weights included), random committees of every size in random containers, every score function against its "
        "definition in exact rationals: thiele_score, marginal add/remove, marginal functions for i = 0..12, cumulative scores, Monroe by "
        "matching/flow/generic vs augmenting-path assignment, minimax scores, Hamming counts, telescoping of marginals; "
        "non-trivial: distinct (function, instance, committee) with a non-zero score")
ASSUMPTIONS = []
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 6000, "thorough": 80000}
REQUIRED = ["thiele", "add", "remove", "monroe:flow", "monroe:matching", "monroe:generic", "mav", "hamcount", "marginal-fct",
            "cumulative", "unknown", "weighted", "geom-rational", "large"]
SIDS = ["pav", "slav", "cc", "av", "geom2", "geom3", "geom1.5", "geom10", "geom7/3", "geom5/4", "geom1", "geom1/2", "geom0.25", "geom123/4", "atleast1", "atleast2", "atleast3"]


def gen_case(rng, idx, tier):
    big = rng.random() < 0.2
    inst = gen.inst(rng, nmax=18 if big else 8, mmax=12 if big else 7, kmax=10)
    if idx % 25 == 24:      # sizes beyond any table or small-case shortcut
        inst = gen.inst(rng, nmin=10, nmax=rng.choice([30, 120]), mmin=14, mmax=45, kmax=45)
    if idx % 10 == 9:       # weights of any magnitude
        inst["w"] = [rng.choice([1, 3, "1/7", "1/1000003", 10 ** 6 + 1, 10 ** 9, 3 * 10 ** 15 + 1, 10 ** 30]) for _ in inst["votes"]]
    return {"inst": inst, "coms": [rng.sample(range(inst["m"]), rng.randint(1, inst["m"])) for _ in range(3)],
            "sids": rng.sample(SIDS, 3), "s": rng.randrange(1 << 30)}


def f(sid, i):
    """the published marginal value of the i-th approved committee member"""
    if i == 0:
        return F(0)
    if sid == "pav":
        return F(1, i)
    if sid == "slav":
        return F(1, 2 * i - 1)
    if sid == "cc":
        return F(int(i == 1))
    if sid == "av":
        return F(1)
    if sid.startswith("atleast"):
        return F(int(i == int(sid[7:])))
    return 1 / F(sid[4:]) ** (i - 1)


def same(a, b):
    if isinstance(a, float) and not F(a) == b:
        return False
    return F(a) == b


def run_case(case, mon):
    inst = case["inst"]
    m = inst["m"]
    votes, w = votes_of(inst), weights_of(inst)
    rng = random.Random(case["s"])
    prof = profile(inst, case["s"])
    unit = profile(dict(inst, w=None), case["s"])
    if not is_unit(inst):
        mon.count("weighted")
    if m > 12:
        mon.count("large")
    d = show(inst)
    before = snapshot(prof), snapshot(unit)
    for sid in case["sids"]:
        fct = scores.get_marginal_scorefct(sid, rng.choice([None, inst["k"]]))
        if sid in ("geom1.5", "geom7/3", "geom5/4"):
            mon.count("geom-rational")
        for i in list(range(0, 13)) + ([rng.randint(13, 80)] if m <= 12 else [m - 1, m, m + 7, 99]):
            mon.count("marginal-fct")
            mon.check(same(fct(i), f(sid, i)), lambda: "%s marginal of %d is %r, defined %s" % (sid, i, fct(i), f(sid, i)), "marginal:" + sid)
            got = scores.cumulative_score(fct, i)
            want = sum((f(sid, j) for j in range(1, i + 1)), F(0))
            mon.count("cumulative")
            mon.check(same(got, want), lambda: "cumulative %s of %d is %r, defined %s" % (sid, i, got, want), "cumulative")
        for com in case["coms"]:
            C = frozenset(com)
            cont = rng.choice([list, tuple, set, frozenset, lambda x: CandidateSet(x, num_cand=m), lambda x: {c: 0 for c in x}.keys()])
            c = cont(com)
            got = scores.thiele_score(sid, prof, c)
            want = sum((wt * sum((f(sid, j) for j in range(1, len(b & C) + 1)), F(0)) for b, wt in zip(votes, w)), F(0))
            mon.count("thiele")
            mon.check(same(got, want), lambda: "thiele_score(%s, %s) = %s, defined %s: %s" % (sid, com, got, want, d), "thiele:" + sid)
            if want:
                mon.seen(sid, d, sorted(com))
            got = scores.marginal_thiele_scores_add(fct, prof, c)
            mon.count("add")
            mon.eq(len(got), m, "length of marginal scores (add)", "add")
            for x in range(m):
                wm = F(-1) if x in C else sum((wt * f(sid, len(b & C) + 1) for b, wt in zip(votes, w) if x in b), F(0))
                mon.check(same(got[x], wm), lambda: "marginal add score (%s) of %d given %s is %s, defined %s: %s" % (
                    sid, x, com, got[x], wm, d), "add:" + sid)
            got = scores.marginal_thiele_scores_remove(fct, prof, c)
            mon.count("remove")
            mon.eq(len(got), m, "length of marginal scores (remove)", "remove")
            inside = []
            for x in com:
                wm = sum((wt * f(sid, len(b & C)) for b, wt in zip(votes, w) if x in b), F(0))
                inside.append(wm)
                mon.check(same(got[x], wm), lambda: "marginal remove score (%s) of %d given %s is %s, defined %s: %s" % (
                    sid, x, com, got[x], wm, d), "remove:" + sid)
                # telescoping: score of the committee minus score without x
                loss = want - scores.thiele_score(sid, prof, [y for y in com if y != x])
                mon.check(same(loss, wm), lambda: "score loss of %d from %s is %s, marginal %s (%s): %s" % (x, com, loss, wm, sid, d), "telescope")
            for x in range(m):
                if x not in C:
                    mon.check(F(got[x]) > max(inside), lambda: "removed candidate %d has remove-score %s, not above %s: %s" % (
                        x, got[x], max(inside), d), "remove:outside")
    for com in case["coms"]:
        C = frozenset(com)
        c = rng.choice([list, tuple, set, lambda x: CandidateSet(x, num_cand=m)])(com)
        n = len(votes)
        want = o.monroe_score(votes, C)
        if n * len(com) <= 60:
            w2 = o.monroe_score_flow(votes, C)
            if w2 != want:
                raise RuntimeError("oracles disagree")
        for name, fn in (("generic", scores.monroescore), ("flow", scores.monroescore_flowbased), ("matching", scores.monroescore_matching)):
            if name == "matching" and n % len(com):
                try:
                    fn(unit, c)
                except ValueError:
                    mon.count("matching-rejected")
                    continue
                mon.violate("monroescore_matching accepts %d voters, committee size %d" % (n, len(com)), "monroe:domain")
            got = fn(unit, c)
            mon.count("monroe:" + name)
            mon.eq(int(got), want, "monroescore (%s) of %s: %s" % (name, sorted(com), d), "monroe:" + name)
        dist = [len(b ^ C) for b in votes]
        mon.count("mav")
        mon.eq(scores.minimaxav_score(prof, c), max(dist), "minimaxav_score of %s: %s" % (com, d), "mav")
        cnt = Counter(dist)
        for b in range(-1, m + 2):
            mon.count("hamcount")
            mon.eq(scores.num_voters_with_upper_bounded_hamming_distance(b, prof, c), sum(v for x, v in cnt.items() if x <= b),
                   "number of voters with distance <= %d of %s: %s" % (b, com, d), "hamcount")
    for bad in ("", "nonsense", "PAV", "pav ", "lexcc", "monroe", "sav", "geom", "geom0", "geom-1", "geom1/0", "geomx", "atleast", "atleastx"):
        try:
            scores.get_marginal_scorefct(bad)
        except scores.UnknownScoreFunctionError:
            mon.count("unknown")
        else:
            mon.violate("score function %r accepted" % bad, "unknown")
    mon.eq((snapshot(prof), snapshot(unit)), before, "profile after score computations", "impure")
