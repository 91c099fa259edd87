"""Operations of C13 in a form that can be replayed in any order and process."""
import random
from fractions import Fraction as F
from mon.common import *
from mon import gen

SOLVER = {"gurobi", "mip-cbc", "ortools-cp", "fastest"}


def do(op, prof):
    """perform one operation on the live profile; returns the raw result"""
    kind = op["op"]
    if kind == "compute":
        kw = {"algorithm": op["alg"], "resolute": op["resolute"]}
        if op.get("lim"):
            kw["max_num_of_committees"] = op["lim"]
        try:
            return abcrules.compute(op["rule"], intweights(prof, op["rule"], op["alg"]), op["k"], **kw)
        except abcrules.NoAvailableAlgorithm if hasattr(abcrules, "NoAvailableAlgorithm") else ():
            return "unavailable"
    if kind == "check":
        kw = {"algorithm": op["alg"]} if op.get("alg") else {}
        return properties.check(op["prop"], prof, op["com"], **kw)
    if kind == "score":
        f = op["f"]
        if f == "thiele":
            return scores.thiele_score(op["sid"], prof, op["com"])
        if f == "add":
            return scores.marginal_thiele_scores_add(scores.get_marginal_scorefct(op["sid"], op["k"]), prof, op["com"])
        if f == "remove":
            return scores.marginal_thiele_scores_remove(scores.get_marginal_scorefct(op["sid"], op["k"]), prof, op["com"])
        if f == "monroe":
            return scores.monroescore(prof, op["com"])
        if f == "mav":
            return scores.minimaxav_score(prof, op["com"])
    if kind == "text":
        return [str(prof), prof.str_compact(), sorted(int(c) for c in prof.approved_candidates()), prof.is_party_list(), len(prof)]
    raise KeyError(kind)


def canon(op, res):
    """canonical comparable form; solver results in resolute mode are only compared by shape"""
    if res == "unavailable":
        return res
    if op["op"] == "compute":
        lst = [sorted(int(c) for c in x) for x in res]
        if op["resolute"] and op.get("solver"):
            return ["resolute", len(lst)]
        if op.get("lim"):
            return ["limited", len(lst)]
        return lst
    if op["op"] == "score":
        return [str(F(x)) for x in res] if isinstance(res, list) else str(F(res))
    return res


def run_ops(ops, order=None, seed=None):
    """fresh profiles; operations in the given order; canonical results in the original order"""
    if seed is not None:
        random.seed(seed)
        import numpy as np
        np.random.seed(seed % (2 ** 32))
    cache = {}
    out = [None] * len(ops)
    for i in (order if order is not None else range(len(ops))):
        op = ops[i]
        key = op["pid"]
        if key not in cache:
            cache[key] = profile(op["inst"], op["pid"])
        prof = cache[key]
        if op["op"] == "compute" and op["alg"] not in algs(op["rule"]) and op["alg"] != "fastest":
            out[i] = "unavailable"
            continue
        out[i] = canon(op, do(op, prof))
    return out
