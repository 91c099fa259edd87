"""Shared drivers: build real Profile objects from instances, run rules, normalise and screen results."""
import random
from fractions import Fraction as F

from mon.core import Skip, Violation
from mon import gen, oracles

import abcvoting
from abcvoting import abcrules, properties, scores, misc, preferences, output as aoutput
from abcvoting.preferences import Profile, Voter
from abcvoting.misc import CandidateSet
from abcvoting.output import output

try:
    import gurobipy
    GurobiError = gurobipy.GurobiError
except ImportError:  # pragma: no cover
    class GurobiError(Exception):
        pass

output.set_verbosity(aoutput.WARNING)

EXACT_ALGS = {"standard-fractions", "gmpy2-fractions"}
UNUSABLE = {"mip-gurobi"}  # listed by abcvoting, the python-mip package has no Gurobi library here


def votes_of(inst):
    return [frozenset(b) for b in inst["votes"]]


def weights_of(inst):
    return [F(w) for w in gen.W(inst)]


def is_unit(inst):
    return inst.get("w") is None or all(w == 1 for w in gen.W(inst))


def small(inst, **kw):
    d = dict(inst)
    d.update(kw)
    return d


def _container(rng, b, m):
    r = rng.random()
    if r < 0.35:
        return list(b)
    if r < 0.5:
        return tuple(b)
    if r < 0.65:
        return set(b)
    if r < 0.75:
        return CandidateSet(b, num_cand=m)
    if r < 0.82:
        import numpy as np
        return np.array(list(b), dtype=int) if len(b) else []
    if r < 0.9:
        return {c: 1 for c in b}.keys()
    return frozenset(b)


def _weight(rng, w):
    """the same exact weight in one of the number types users pass"""
    w = F(w)
    if w.denominator == 1:
        return int(w) if rng.random() < 0.8 else w
    return w


def profile(inst, seed=0, order=None):
    """the real Profile of an instance, built along one of several equivalent ways"""
    rng = random.Random("prof|%s" % (seed,))
    m = inst["m"]
    names = inst.get("names")
    prof = Profile(m, cand_names=list(names)) if names else Profile(m)
    ws = gen.W(inst)
    items = []
    for i in (order if order is not None else range(len(inst["votes"]))):
        b, w = inst["votes"][i], ws[i]
        c = _container(rng, b, m)
        if w == 1 and rng.random() < 0.7:
            items.append(c if rng.random() < 0.7 else Voter(c))
        else:
            items.append(Voter(c, weight=_weight(rng, w)))
    if rng.random() < 0.5:
        prof.add_voters(items)
    else:
        for x in items:
            prof.add_voter(x)
    return prof


def snapshot(prof):
    return (prof.num_cand, tuple(prof.cand_names),
            tuple((tuple(sorted(v.approved)), v.weight, id(v)) for v in prof))


def show(inst):
    return "m=%d k=%d votes=%r w=%r" % (inst["m"], inst["k"], inst["votes"], inst.get("w"))


def fsets(coms):
    return [frozenset(int(x) for x in c) for c in coms]


def licence(e):
    return "too large for size-limited" in str(e) or "size-limited license" in str(e)


def raw_compute(rule_id, prof, k, **kw):
    try:
        return abcrules.compute(rule_id, prof, k, **kw)
    except GurobiError as e:
        if licence(e):
            raise Skip("licence")
        raise


def compute(mon, rule_id, prof, k, partial=False, what="", **kw):
    """run a rule; screen shape, purity; return the list of frozensets in returned order"""
    before = snapshot(prof)
    res = raw_compute(rule_id, prof, k, **kw)
    mon.count("rule_runs")
    desc = "%s k=%d %r on m=%d %s" % (rule_id, k, kw, prof.num_cand,
                                      [(sorted(v.approved), str(v.weight)) for v in prof])
    if snapshot(prof) != before:
        mon.violate("profile changed by " + desc, "profile-changed")
    screen(mon, res, prof.num_cand, k, partial, desc)
    return fsets(res)


def screen(mon, res, m, k, partial, desc):
    mon.count("assertions")
    if not isinstance(res, list) or not res:
        mon.violate("%s: result is %r, not a non-empty list" % (desc, res), "shape")
    fs = []
    for c in res:
        f = frozenset(c)
        if any(not (0 <= int(x) < m and int(x) == x) for x in f):
            mon.violate("%s: committee %r has members outside 0..%d" % (desc, c, m - 1), "shape")
        if len(f) != k and not (partial and len(f) < k):
            mon.violate("%s: committee %r has not the requested size %d" % (desc, c, k), "shape-size")
        fs.append(f)
    if len(set(fs)) != len(fs):
        mon.violate("%s: duplicate committees in %r" % (desc, res), "shape-dup")


def judge(mon, got_irr, want, desc, mech=""):
    mon.count("assertions")
    want = set(want)
    g = set(got_irr)
    if g != want:
        mon.violate("%s: irresolute result %s, expected %s (missing %s, extra %s)" % (
            desc, srt(g), srt(want), srt(want - g), srt(g - want)), mech)


def judge_resolute(mon, got, want, desc, mech=""):
    mon.count("assertions")
    if len(got) != 1:
        mon.violate("%s: resolute result has %d committees: %s" % (desc, len(got), srt(got)), mech)
    if got[0] not in want:
        mon.violate("%s: resolute result %s is not among %s" % (desc, sorted(got[0]), srt(want)), mech)


def srt(s):
    return sorted(sorted(x) for x in s)[:40]


def algs(rule_id):
    return [a for a in abcrules.Rule(rule_id).available_algorithms if a not in UNUSABLE]


def sav_float_opt(prof, k):
    """what summing SAV scores in plain number arithmetic yields (known finding C02/sav-float-ties)"""
    import itertools
    score = [0] * prof.num_cand
    for v in prof:
        for c in v.approved:
            score[c] += v.weight / len(v.approved)
    cut = sorted(score)[-k]
    sure = [c for c in prof.candidates if score[c] > cut]
    tie = [c for c in prof.candidates if score[c] == cut]
    return {frozenset(sure) | frozenset(x) for x in itertools.combinations(tie, k - len(sure))}


def sav_affected(prof, k):
    """True if float summation changes the SAV outcome of this profile"""
    votes = [frozenset(v.approved) for v in prof]
    w = [F(v.weight) for v in prof]
    return sav_float_opt(prof, k) != oracles.sep_opt("sav", prof.num_cand, k, votes, w)[0]


# ---------------------------------------------------------------- the catalogue of rules
UNIT_ONLY = {"monroe", "lexminimaxav", "greedy-monroe", "rsd"}
RESOLUTE_ONLY = {"greedy-monroe", "rsd", "equal-shares-with-increment-completion"}
OPTIMISATION = ["av", "sav", "pav", "slav", "cc", "lexcc", "geom2", "geom3", "monroe", "minimaxav", "lexminimaxav",
                "minimaxphragmen", "leximaxphragmen", "trivial", "eph"]
SEQUENTIAL = ["seqpav", "revseqpav", "seqslav", "revseqslav", "seqcc", "revseqcc", "seqgeom2", "revseqgeom3",
              "seqphragmen", "maximin-support", "equal-shares", "equal-shares-with-av-completion",
              "equal-shares-without-completion", "phragmen-enestroem", "consensus-rule"]
OTHER = ["equal-shares-with-increment-completion", "greedy-monroe", "rsd"]
ALIASES = ["rule-x", "rule-x-without-phragmen-phase", "equal-shares-with-seqphragmen-completion",
           "equal-shares-without-phragmen-phase", "geom1.5", "geom10", "seqgeom1.5"]
ALL_RULES = OPTIMISATION + SEQUENTIAL + OTHER
PARTIAL = {"equal-shares-without-completion", "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase"}
SLOW = {"leximaxphragmen", "lexminimaxav", "lexcc", "minimaxphragmen", "maximin-support"}


def rule_inst(rng, rule, nmax=8, mmax=7, kmax=6, wkinds=None, **kw):
    """an instance in the domain of the rule, small enough for its slowest algorithm"""
    if rule in UNIT_ONLY:
        wkinds = ["unit"]
    r = rng.random()
    if rule not in SLOW and r < 0.06 and kmax > 1 and nmax > 3 and not set(kw) - {"names"}:     # sizes off the beaten track
        return (gen.wide if r < 0.035 else gen.crowd)(rng, wkinds=wkinds, max_committees=80, **kw)
    if rule in SLOW:
        nmax, mmax, kmax = min(nmax, 7), min(mmax, 6), min(kmax, 5)
        kw.setdefault("max_committees", 40)
    elif rule in OPTIMISATION:
        kw.setdefault("max_committees", 80)
    return gen.inst(rng, nmax=nmax, mmax=mmax, kmax=kmax, wkinds=wkinds, **kw)


def applicable(rule, alg, inst):
    if alg == "ortools-cp" and rule == "cc" and any(F(x).denominator != 1 for x in gen.W(inst)):
        return False
    return True


def intweights(prof, rule, alg):
    if alg == "ortools-cp" and rule == "cc":
        for v in prof:
            v.weight = int(v.weight)
    return prof


def universe_count(rule, m, k, votes, w, cap=120):
    """bounded number of committees/universes of a rule's irresolute mode; raises TooLarge"""
    o = oracles
    if rule.startswith("revseq"):
        st, step = o.step_revseqthiele(rule[6:], m, votes, w)
        return o.universes(st, step, m - k, cap)
    if rule in ("seqphragmen",):
        st, step = o.step_seqphragmen(m, votes, w)
    elif rule == "phragmen-enestroem":
        st, step = o.step_enestroem(m, k, votes, w)
    elif rule == "consensus-rule":
        st, step = o.step_consensus(m, votes, w)
    elif rule == "maximin-support":
        st, step = o.step_maximin(m, votes, w)
    elif rule.startswith("equal-shares") or rule.startswith("rule-x"):
        ends, _ = o.mes_phase1(m, k, votes, w, cap=cap)
        for e in ends:
            if "av-completion" in rule:
                if len(o.mes_complete("av", e, m, k, votes, w)[0]) > 3 * cap:
                    raise o.TooLarge("mes")
            elif rule not in PARTIAL:
                o.mes_complete("seqphragmen", e, m, k, votes, w, cap=cap)
        return None
    elif rule.startswith("seq"):
        st, step = o.step_seqthiele(rule[3:], m, votes, w)
    else:
        return None
    return o.universes(st, step, k, cap)


def irresolute_ok(rule, inst, cap=120):
    try:
        universe_count(rule, inst["m"], inst["k"], votes_of(inst), weights_of(inst), cap)
        return True
    except oracles.TooLarge:
        return False
