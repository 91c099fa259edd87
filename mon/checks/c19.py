import copy as pycopy, re
from collections import Counter
from mon.common import *
from mon import gen

ID = "C19"
RULE = ("random operation histories (8-40 steps) on 1-3 profiles: add_voter(s) with ballots and Voter objects in many containers, item "
        "replacement (also negative indices), conversions, copy/copy.copy/deepcopy, reading attributes, changing passed-in containers and "
        "Voter objects afterwards, and invalid operations; after every step an online checker compares all observable attributes with the "
        "list-of-weighted-ballots model; non-trivial: distinct history containing a successful mutation")
ASSUMPTIONS = ["convert_to_weighted may list the merged ballots in any order"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 5000, "thorough": 60000}
REQUIRED = ["op:add", "op:add-voter-object", "op:add-many", "op:replace", "op:to-weighted", "op:to-unit", "op:to-unit-rejected", "op:copy",
            "op:deepcopy", "op:copy.copy", "op:rejected", "op:mutate-input", "op:re-add", "text", "compact", "named", "fractional", "party-list:True",
            "party-list:False", "many-cands", "bulk"]


def gen_case(rng, idx, tier):
    return {"s": rng.randrange(1 << 60), "m": rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 40] if idx % 40 else [40, 150]), "steps": rng.randint(8, 40) if idx % 40 else rng.randint(6, 10), "bulk": idx % 40 == 0,
            "named": rng.random() < 0.5}


class Model:
    def __init__(self, m, names):
        self.m, self.names, self.v = m, names, []

    def copy(self):
        x = Model(self.m, list(self.names))
        x.v = list(self.v)
        return x


def setstr(b, names):
    return "{" + ", ".join(sorted(names[c] for c in b)) + "}"


def observe(mon, prof, mod, what):
    def eq(a, b, n):
        mon.count("assertions")
        if a != b:
            mon.violate("%s: %s is %r, the list of ballots %s has %r" % (what, n, a, [(sorted(x), str(y)) for x, y in mod.v][:12], b), "attr:" + n)
    eq(len(prof), len(mod.v), "len")
    eq(prof.num_cand, mod.m, "num_cand")
    eq(list(prof.candidates), list(range(mod.m)), "candidates")
    eq(list(prof.cand_names), mod.names, "cand_names")
    vs = list(prof)
    eq([(frozenset(v.approved), v.weight) for v in vs], mod.v, "ballots and weights")
    for v in vs:
        mon.check(isinstance(v, Voter) and isinstance(v.approved, CandidateSet), "stored voter has type %s/%s" % (type(v), type(v.approved)), "type")
    eq(len({id(v) for v in vs}), len(vs), "number of distinct voter objects")
    eq(len({id(v.approved) for v in vs}), len(vs), "number of distinct approval set objects")
    for i in range(-len(vs), len(vs)):
        if prof[i] is not vs[i]:
            mon.violate("%s: item %d is not the voter met in iteration" % (what, i), "getitem")
    eq(prof.total_weight(), sum((y for _, y in mod.v), 0), "total_weight")
    eq(set(prof.approved_candidates()), set().union(*(x for x, _ in mod.v)) if mod.v else set(), "approved_candidates")
    unit = all(y == 1 for _, y in mod.v)
    eq(prof.has_unit_weights(), unit, "has_unit_weights")
    pl = all(a == b or not (a & b) for a, _ in mod.v for b, _ in mod.v)
    eq(prof.is_party_list(), pl, "is_party_list")
    mon.count("party-list:%s" % pl)
    if not mod.v:
        str(prof), prof.str_compact()
        return
    head = "%sprofile with %d voters and %d candidates:" % ("" if unit else "weighted ", len(mod.v), mod.m)
    lines = str(prof).split("\n")
    want = [head] + [" voter %s %s%s%s" % ((str(i) + ":").ljust(4), "" if unit else "%s * " % y, setstr(x, mod.names),
                                           "," if i + 1 < len(mod.v) else "") for i, (x, y) in enumerate(mod.v)]
    norm = lambda s: re.sub(r"\s+", " ", s.strip()).rstrip(",")
    eq([norm(x) for x in lines if x.strip()], [norm(x) for x in want], "str")
    mon.count("text")
    agg = {}
    for x, y in mod.v:
        agg[x] = agg.get(x, 0) + y
    want = [head] + ["%s x %s" % (y, setstr(x, mod.names)) for x, y in agg.items()] + ([] if unit else ["total weight: %s" % sum(y for _, y in mod.v)])
    eq(sum(x.rstrip().endswith(",") for x in prof.str_compact().split("\n")), max(len(agg) - 1, 0), "str_compact separators")
    eq(sum(x.rstrip().endswith(",") for x in lines), max(len(mod.v) - 1, 0), "str separators")
    got = [norm(x) for x in prof.str_compact().split("\n") if x.strip()]
    want = [norm(x) for x in want]
    eq(got[0], want[0], "str_compact header")
    eq(Counter(got), Counter(want), "str_compact")
    mon.count("compact")


def run_case(case, mon):
    rng = random.Random(case["s"])
    m = case["m"]
    names = rng.sample(gen.NAMEPOOL + ["cand%d" % i for i in range(150)], m) if case["named"] else [str(i) for i in range(m)]
    if case["named"]:
        mon.count("named")
        given = names + ["extra"] if rng.random() < 0.2 else list(names)
        prof = Profile(m, cand_names=given)
        given[0] = "changed later"
    else:
        prof = Profile(m)
    if m > 8:
        mon.count("many-cands")
    live = [(prof, Model(m, list(names)))]
    hist = []
    kept = []       # (input object, way of mutating it)
    if case.get("bulk"):        # a large electorate with many distinct ballots
        bs = [(rng.sample(range(m), rng.randint(0, min(m, 6))), rng.choice([1, 1, 2, F(1, 2)])) for _ in range(rng.choice([60, 130, 200]))]
        prof.add_voters([b if w == 1 else Voter(b, weight=w) for b, w in bs])
        live[0][1].v.extend((frozenset(b), w) for b, w in bs)
        mon.count("bulk")
    for step in range(case["steps"]):
        pi = rng.randrange(len(live))
        prof, mod = live[pi]

        def ballot():
            if mod.v and rng.random() < 0.35:
                return sorted(mod.v[rng.randrange(len(mod.v))][0], key=lambda _: rng.random())
            if rng.random() < 0.1:
                return []
            hi = m if rng.random() < 0.7 else min(m, 3)
            return rng.sample(range(hi), rng.randint(0, hi))

        def weight():
            r = rng.random()
            return 1 if r < 0.5 else rng.randint(2, 4) if r < 0.8 else F(rng.randint(1, 7), rng.choice([2, 3, 4]))
        op = rng.choice(["add", "add", "addv", "addv", "many", "replace", "replace", "toweighted", "tounit", "copy", "reject", "reject",
                         "mutate", "readd", "read"])
        what = "%s #%d" % (op, pi)
        if op == "add":
            b = ballot()
            c = _cont(rng, b, m)
            prof.add_voter(c)
            mod.v.append((frozenset(b), 1))
            kept.append(c)
            mon.count("op:add")
        elif op == "addv":
            b, w = ballot(), weight()
            v = Voter(_cont(rng, b, m), weight=w) if rng.random() < 0.5 else Voter(b, w, num_cand=m)
            prof.add_voter(v)
            mod.v.append((frozenset(b), w))
            kept.append(v)
            mon.count("op:add-voter-object")
            if rng.random() < 0.4:
                prof.add_voter(v)
                mod.v.append((frozenset(b), w))
                mon.count("op:re-add")
            if F(w).denominator > 1:
                mon.count("fractional")
        elif op == "many":
            bs = [(ballot(), weight() if rng.random() < 0.4 else None) for _ in range(rng.randint(0, 4))]
            items = [_cont(rng, b, m) if w is None else Voter(b, weight=w) for b, w in bs]
            prof.add_voters(items if rng.random() < 0.6 else (x for x in items))
            mod.v.extend((frozenset(b), 1 if w is None else w) for b, w in bs)
            kept.extend(items)
            mon.count("op:add-many")
        elif op == "replace" and mod.v:
            i = rng.randrange(-len(mod.v), len(mod.v))
            b, w = ballot(), weight()
            if rng.random() < 0.5:
                prof[i] = Voter(b, weight=w)
                mod.v[i] = (frozenset(b), w)
            else:
                c = _cont(rng, b, m)
                prof[i] = c
                mod.v[i] = (frozenset(b), 1)
                kept.append(c)
            mon.count("op:replace")
        elif op == "toweighted" and rng.random() < 0.5:
            prof.convert_to_weighted()
            agg = {}
            for x, y in mod.v:
                agg[x] = agg.get(x, 0) + y
            got = [(frozenset(v.approved), v.weight) for v in prof]
            mon.check(len(got) == len(agg) and dict(got) == agg, lambda: "after convert_to_weighted: %s, expected %s" % (got, agg), "to-weighted")
            mod.v = got
            mon.count("op:to-weighted")
        elif op == "tounit" and rng.random() < 0.5:
            if all(isinstance(y, int) for _, y in mod.v):
                prof.convert_to_unit_weights()
                mod.v = [(x, 1) for x, y in mod.v for _ in range(y)]
                mon.count("op:to-unit")
            else:
                try:
                    prof.convert_to_unit_weights()
                except TypeError:
                    mon.count("op:to-unit-rejected")
                else:
                    if any(F(y).denominator > 1 for _, y in mod.v):
                        mon.violate("fractional weights converted to unit weights: %s" % mod.v, "to-unit")
                    mod.v = [(x, 1) for x, y in mod.v for _ in range(int(y))]
        elif op == "copy" and len(live) < 4:
            kind = rng.randrange(4)
            if kind < 2:
                new = prof.copy()
                mon.count("op:copy")
            elif kind == 2:
                new = pycopy.copy(prof)
                mon.count("op:copy.copy")
            else:
                new = pycopy.deepcopy(prof)
                mon.count("op:deepcopy")
            mon.check(isinstance(new, Profile) and new is not prof, "copy is %r" % type(new), "copy")
            mon.check(not ({id(v) for v in new} & {id(v) for v in prof}), "copy shares voter objects", "copy-alias")
            mon.check(not ({id(v.approved) for v in new} & {id(v.approved) for v in prof}), "copy shares approval sets", "copy-alias")
            live.append((new, mod.copy()))
            if rng.random() < 0.3:      # change the names of one of the two
                new.cand_names[0] = "renamed"
                live[-1][1].names[0] = "renamed"
        elif op == "reject":
            bad = rng.choice([[m], [0, 0], [-1], ["x"], [0.5], 7, [m + 3, 0], None])
            way = rng.randrange(4)
            try:
                if way == 0:
                    prof.add_voter(bad)
                elif way == 1 and mod.v:
                    prof[rng.randrange(len(mod.v))] = bad
                elif way == 2:
                    prof.add_voters([bad])
                else:
                    prof.add_voter(Voter([0], weight=rng.choice([0, -1, F(-1, 3)])))
            except (ValueError, TypeError):
                mon.count("op:rejected")
            else:
                mon.violate("invalid ballot %r accepted (way %d, m=%d)" % (bad, way, m), "accepted")
            if mod.v and rng.random() < 0.2:
                try:
                    prof[len(mod.v)] = [0]
                except IndexError:
                    pass
                else:
                    mon.violate("item beyond the end replaced", "accepted")
        elif op == "mutate" and kept:
            x = rng.choice(kept)
            mon.count("op:mutate-input")
            if isinstance(x, Voter):
                x.approved.clear()
                x.weight = 99
            elif isinstance(x, list):
                x.append(0)
            elif isinstance(x, set):
                x.clear()
            kept = [y for y in kept if y is not x]
        elif op == "readd" and mod.v:
            i = rng.randrange(len(mod.v))
            tgt = rng.choice(live)
            if tgt[1].m == mod.m:
                tgt[0].add_voter(prof[i])
                tgt[1].v.append(mod.v[i])
                mon.count("op:re-add")
        hist.append(what)
        if len(mod.v) > (300 if case.get("bulk") else 60):
            break
        for j, (p, q) in enumerate(live):
            observe(mon, p, q, "profile %d after %s" % (j, hist[-6:]))
        mon.count("steps")
    mon.seen(case["s"])


def _cont(rng, b, m):
    r = rng.random()
    if r < 0.3:
        return list(b)
    if r < 0.45:
        return tuple(b)
    if r < 0.65:
        return set(b)
    if r < 0.8:
        return CandidateSet(b, num_cand=m)
    if r < 0.88:
        import numpy as np
        return np.array(list(b), dtype=int)
    return {c: 1 for c in b}.keys()
