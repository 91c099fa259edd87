import os, itertools
from mon.common import *
from mon import gen
from abcvoting import fileio, generate

ID = "C20"
RULE = ("random instances (ballots from generators and user containers, unit/int/float/fraction/numpy weights, missing committee size, hostile "
        "descriptions, stored computations with parameters and computed, tampered or absent results) written to a scratch file that may already "
        "exist, read back and compared field by field with what was written (and written again from what was read); files composed "
        "independently by the harness in several layouts; malformed files; non-trivial: distinct written or composed file content")
ASSUMPTIONS = ["candidate names are not part of the file format",
               "malformed files other than a missing profile, unknown keys, differing numbers of weights and missing rule ids may raise any exception",
               "weights: Python ints and finite floats must be kept exactly, other number types are kept exactly or rejected"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 6000, "thorough": 60000}
REQUIRED = ["huge", "written", "read", "unrepresentable", "rejected-old-file-kept", "weights:float", "weights:int", "weights:fraction", "weights:unit",
            "empty-ballot", "no-committeesize", "description", "stored-result", "verified", "tampered-detected", "own-file", "own-file:sets",
            "own-file:no-num_cand", "malformed:documented", "malformed:other", "rewrite", "numpy-ballots", "numpy-weights", "resolute-result",
            "conflict-profile", "conflict-size", "missing-rule-id", "max-committees", "params"]

DESC = ["plain", "", "x: y\n# z", "  lead", "trail ", "tab\there", "\u00e9\u00fc\u4e2d", "'q' \"d\"", "- a", "null", "1.0", "yes", "a\n\nb\n", " ", "word " * 60,
        "x" * 300, "emoji \U0001f600", "%", "---", "...\n", "{a: [b", "&anchor *alias", "line one\nline two", "!tag", "\u00a0nbsp", "@at", "`tick`", "a:b: c", "|", ">", "no", "~",
        "a \\n b", "0x1F", "2020-01-01", "key: value\nprofile: [[0]]"]
FAST = ["av", "sav", "pav", "seqpav", "seqphragmen", "equal-shares", "cc", "revseqpav", "phragmen-enestroem", "minimaxav", "geom2", "seqcc", "trivial", "consensus-rule"]


def gen_case(rng, idx, tier):
    kind = ["round", "round", "own", "malformed"][idx % 4]
    return {"s": rng.randrange(1 << 60), "kind": kind}


def path(mon, name):
    d = os.environ["MON_SCRATCH"]
    return os.path.join(d, "w%d-%s" % (os.getpid(), name))


def weight(rng, kind):
    import numpy as np
    if kind == "unit":
        return 1
    if kind == "int":
        return rng.choice([1, 2, 3, 7, 10 ** 6, 10 ** 25])
    if kind == "float":
        return rng.choice([0.5, 1.5, 0.1, 1 / 3, 1e-5, 1e-7, 1e22, 1.0, 2.0, 123456789.123456789, 5e-324, 1.7976931348623157e308, rng.random(), rng.random() * 1e-3, 1e16, 1e5, 1.25e-4])
    if kind == "fraction":
        return rng.choice([F(1, 2), F(5, 3), F(2), 1, 0.5])
    if kind == "numpy":
        return rng.choice([np.float64(0.5), np.int64(2), np.float64(0.1), np.float32(0.25), 1])


def same_profile(mon, q, votes, ws, m, what):
    got = [(frozenset(int(c) for c in v.approved), v.weight) for v in q]
    if q.num_cand != m or len(got) != len(votes):
        mon.violate("%s: %d voters and %d candidates read, %d and %d written" % (what, len(got), q.num_cand, len(votes), m), "shape")
    for i, ((b, w), b0, w0) in enumerate(zip(got, votes, ws)):
        if b != b0:
            mon.violate("%s: ballot %d read as %s, written %s" % (what, i, sorted(b), sorted(b0)), "ballot")
        if not (w == w0):
            mon.violate("%s: weight of voter %d read as %r, written %r" % (what, i, w, w0), "weight")
    mon.count("assertions")


def do_round(mon, rng):
    import numpy as np
    wk = rng.choice(["unit", "unit", "int", "float", "float", "fraction", "numpy"])
    big = rng.random() < 0.25
    huge = big and rng.random() < 0.12
    inst = gen.inst(rng, nmax=300 if huge else 40 if big else 7, mmin=26 if huge else 1, mmax=140 if huge else 25 if big else 6,
                    kmax=60 if huge else 6, names=False, wkinds=["unit"])
    if huge:
        mon.count("huge")
        cut = rng.randint(1, inst["m"])     # trailing candidates without approvals
        inst["votes"] = [[c for c in b if c < cut] for b in inst["votes"]]
    m, k = inst["m"], inst["k"]
    votes = votes_of(inst)
    ws = [weight(rng, wk) for _ in votes]
    names = [chr(97 + i % 26) + "x" * (i // 26) for i in range(m)] if rng.random() < 0.3 else None
    p = Profile(m, cand_names=names) if names else Profile(m)
    npb = rng.random() < 0.25
    if npb and rng.random() < 0.4 and m >= 2:     # profile made by one of the generators
        n = len(votes)
        p = generate.random_profile(n, m, rng.choice([
            {"id": "Euclidean fixed-size", "voter_prob_distribution": generate.PointProbabilityDistribution("2d_square"),
             "candidate_prob_distribution": generate.PointProbabilityDistribution("2d_square"), "setsize": max(1, m // 2)},
            {"id": "Noise", "p": 0.5, "phi": 0.5}, {"id": "IC", "p": 0.5}, {"id": "IC fixed-size", "setsize": max(1, m // 2)}]))
        votes = [frozenset(int(c) for c in v.approved) for v in p]
        for v, w in zip(p, ws):
            v.weight = w
    else:
        for b, w in zip(inst["votes"], ws):
            b = [np.int64(c) for c in b] if npb else b
            p.add_voter(Voter(b, weight=w))
    if npb:
        mon.count("numpy-ballots")
    mon.count("weights:" + {"numpy": "unit"}.get(wk, wk))
    if wk == "numpy":
        mon.count("numpy-weights")
    if any(not b for b in votes):
        mon.count("empty-ballot")
    size = None if rng.random() < 0.2 else k
    if size is None:
        mon.count("no-committeesize")
    kw = {}
    if rng.random() < 0.6:
        kw["description"] = rng.choice(DESC)
        mon.count("description")
    comp = None
    bad = None
    tampered = False
    small_ok = not big and wk in ("unit", "int", "float") and all(1e-3 < w < 1e3 for w in ws) and any(votes)
    if rng.random() < 0.7:
        comp = []
        for _ in range(rng.randint(0, 3)):
            c = {"rule_id": rng.choice(FAST)}
            if rng.random() < 0.5:
                c["resolute"] = rng.choice([True, False])
            if c["rule_id"] == "equal-shares" and rng.random() < 0.5:
                c["completion"] = rng.choice([None, "seqphragmen"])
                mon.count("params")
            if c["rule_id"] in ("seqphragmen", "equal-shares") and rng.random() < 0.3:
                c["algorithm"] = "standard-fractions"
            if rng.random() < 0.3 and not c.get("resolute") and c["rule_id"] in ("av", "pav", "cc", "sav", "geom2"):
                c["max_num_of_committees"] = rng.choice([1, 2, 5])
                c["resolute"] = False
                mon.count("max-committees")
            r = rng.random()
            if r < 0.2:
                c["result"] = None
            elif r < 0.4:
                c["result"] = [rng.choice([set, list, tuple, CandidateSet])(rng.sample(range(m), rng.randint(0, m))) for _ in range(rng.randint(0, 3))]
            elif r < 0.85 and small_ok and size:
                kw2 = {a: b for a, b in c.items() if a not in ("rule_id", "max_num_of_committees", "result")}
                try:
                    c["result"] = abcrules.compute(c["rule_id"], p, k, **kw2)
                except (ValueError, NotImplementedError):
                    c["result"] = None
                if c["result"] and "max_num_of_committees" in c:
                    c["result"] = None
                c["_computed"] = bool(c["result"])
            if rng.random() < 0.4:
                c["profile"] = p if rng.random() < 0.5 else p.copy()
            if rng.random() < 0.4 and size is not None:
                c["committeesize"] = size
            comp.append(c)
        if comp and rng.random() < 0.15:
            i = rng.randrange(len(comp))
            bad = rng.choice(["profile", "size", "rule"])
            if bad == "profile":
                q = p.copy()
                way = rng.choice(["more", "fewer", "ballot", "weight", "candidates"])
                v = q[rng.randrange(len(q))]
                if way == "fewer" and len(q) > 1:
                    q = Profile(m, cand_names=list(p.cand_names))
                    for x in list(p)[1:]:
                        q.add_voter(Voter(list(x.approved), weight=x.weight))
                elif way == "ballot":
                    x = rng.randrange(m)
                    v.approved = CandidateSet(set(v.approved) ^ {x}, num_cand=m)
                elif way == "weight":
                    v.weight = v.weight + 1 if v.weight < 1000 else 1
                elif way == "candidates":
                    q = Profile(m + 1)
                    for x in p:
                        q.add_voter(Voter(list(x.approved), weight=x.weight))
                else:
                    q.add_voter([0])
                mon.count("conflict-profile:" + way)
                comp[i]["profile"] = q
            elif bad == "size":
                if size is None:
                    bad = None
                else:
                    comp[i]["committeesize"] = size + 1
            else:
                del comp[i]["rule_id"]
    computed = [c.pop("_computed", False) for c in comp] if comp else []
    fn = path(mon, "a.abc.yaml")
    old = None
    if rng.random() < 0.6:
        old = "profile: [[0]]\nnum_cand: 1\n# previous contents\n"
        open(fn, "w").write(old)
    elif os.path.exists(fn):
        os.remove(fn)
    before = snapshot(p)
    cbefore = repr(comp)
    what = "instance m=%d n=%d weights=%r k=%r desc=%r compute=%s" % (m, len(votes), ws[:6], size, kw.get("description"), repr(comp)[:300])
    mon.seen((m, size, repr(sorted(map(sorted, votes))), repr(ws), repr(comp), kw.get("description")))
    try:
        fileio.write_abcvoting_instance_to_yaml_file(fn, p, committeesize=size, compute_instances=comp, **kw)
    except Exception as e:
        cur = open(fn).read() if os.path.exists(fn) else None
        if old is not None and cur != old:
            mon.violate("%s: rejected with %s but the existing file was replaced by %r" % (what, type(e).__name__, (cur or "")[:80]), "old-file-lost")
        if old is None and cur:
            mon.violate("%s: rejected with %s but a file was left behind" % (what, type(e).__name__), "partial-file")
        if bad:
            if not isinstance(e, ValueError):
                mon.violate("%s: conflicting %s raised %r, not ValueError" % (what, bad, e), "conflict-error")
            mon.count({"profile": "conflict-profile", "size": "conflict-size", "rule": "missing-rule-id"}[bad])
        elif not (wk in ("fraction", "numpy") and any(type(w) not in (int, float) for w in ws)):
            raise
        mon.count("unrepresentable")
        if old is not None:
            mon.count("rejected-old-file-kept")
        if snapshot(p) != before:
            mon.violate("profile changed by writing it", "purity")
        return
    if bad:
        mon.violate("%s: conflicting instance (%s) was written" % (what, bad), "conflict-accepted")
    mon.count("written")
    if snapshot(p) != before or repr(comp) != cbefore:
        mon.violate("%s: arguments changed by writing" % what, "purity")
    text = open(fn, encoding="utf-8").read()
    q, size2, comp2, data = fileio.read_abcvoting_yaml_file(fn)
    mon.count("read")
    same_profile(mon, q, votes, ws, m, what)
    if size2 != size:
        mon.violate("%s: committee size read as %r" % (what, size2), "committeesize")
    if data.get("description") != kw.get("description"):
        mon.violate("%s: description read as %r" % (what, data.get("description")), "description")
    if len(comp2) != len(comp or []):
        mon.violate("%s: %d computations read" % (what, len(comp2)), "compute")
    for c, d, cmpd in zip(comp or [], comp2, computed):
        if d["profile"] is not q or d["committeesize"] != size:
            mon.violate("%s: computation refers to profile/size %r" % (what, d["committeesize"]), "compute")
        a = {x: y for x, y in c.items() if x not in ("profile", "committeesize", "result")}
        b = {x: y for x, y in d.items() if x not in ("profile", "committeesize", "result")}
        if a != b or any(type(a[x]) is not type(b[x]) for x in a):
            mon.violate("%s: parameters read as %r, written %r" % (what, b, a), "params")
        if ("result" in c) != ("result" in d):
            mon.violate("%s: result present %s, read %s" % (what, "result" in c, "result" in d), "result")
        if "result" in c:
            r1, r2 = c["result"], d["result"]
            if (r1 is None) != (r2 is None) or (r1 is not None and [frozenset(x) for x in r1] != [frozenset(x) for x in r2]):
                mon.violate("%s: result read as %r, written %r" % (what, r2, r1), "result")
            if r2 is not None and any(not isinstance(x, CandidateSet) for x in r2):
                mon.violate("%s: committees read as %r" % (what, r2), "result-type")
            mon.count("stored-result")
        if cmpd:
            if c.get("resolute"):
                mon.count("resolute-result")
            out = abcrules.compute(**d)
            if fsets(out) != fsets(c["result"]) and set(fsets(out)) != set(fsets(c["result"])) and not c.get("resolute"):
                mon.violate("%s: recomputed %r" % (what, out), "recompute")
            mon.count("verified")
            d2 = dict(d)
            want = set(fsets(d["result"]))
            other = [frozenset(x) for x in itertools.islice(itertools.combinations(range(m), k), 200) if frozenset(x) not in want]
            if other and d.get("resolute") is False:
                way = rng.randrange(2)
                d2["result"] = list(d["result"]) + [set(rng.choice(other))] if way or len(want) == 1 else list(d["result"])[1:]
                if len(set(fsets(d2["result"]))) != len(want):
                    try:
                        abcrules.compute(**d2)
                    except ValueError:
                        mon.count("tampered-detected")
                    else:
                        mon.violate("%s: recomputing accepted the result %r instead of %r" % (what, d2["result"], d["result"]), "verify")
    # writing what was read gives the same instance again
    fn2 = path(mon, "b.abc.yaml")
    fileio.write_abcvoting_instance_to_yaml_file(fn2, q, committeesize=size2, compute_instances=comp2, description=data.get("description"))
    q3, size3, comp3, data3 = fileio.read_abcvoting_yaml_file(fn2)
    same_profile(mon, q3, votes, ws, m, "second round of " + what)
    if size3 != size or data3.get("description") != kw.get("description") or len(comp3) != len(comp2):
        mon.violate("second round of %s: size %r, description %r" % (what, size3, data3.get("description")), "rewrite")
    for c, d in zip(comp2, comp3):
        if {x: y for x, y in c.items() if x != "profile"} != {x: y for x, y in d.items() if x != "profile"}:
            mon.violate("second round of %s: %r became %r" % (what, c, d), "rewrite")
    mon.count("rewrite")


def compose(rng, inst, mon):
    """a valid file in one of the layouts YAML permits; returns text and expected values"""
    m, votes = inst["m"], inst["votes"]
    style = rng.choice(["flow", "sets", "block"])
    def ballot(b):
        if style == "sets" and b:
            mon.count("own-file:sets")
            return "{" + rng.choice([", ", ","]).join(map(str, b)) + "}"
        return "[" + rng.choice([", ", ","]).join(map(str, b)) + "]"
    parts = []
    if style == "block":
        parts.append("profile:\n" + "".join("%s- %s\n" % ("  " if rng.random() < 2 else "", ballot(b)) for b in votes))
    else:
        parts.append("profile: [" + ", ".join(ballot(b) for b in votes) + "]\n")
    ws = [1] * len(votes)
    if rng.random() < 0.5:
        ws = [rng.choice([1, 2, 3, 0.5, 1.25]) for _ in votes]
        parts.append("voter_weights: [" + ", ".join(map(str, ws)) + "]\n")
    mm = m
    if any(votes) and rng.random() < 0.3:
        mm = max(c for b in votes for c in b) + 1
        mon.count("own-file:no-num_cand")
    else:
        parts.append("num_cand: %d\n" % m)
    size = None
    if rng.random() < 0.7:
        size = min(inst["k"], mm)
        parts.append("committeesize: %d\n" % size)
    desc = None
    if rng.random() < 0.4:
        desc = "some text"
        parts.append("description: some text\n")
    comp = []
    if rng.random() < 0.6:
        t = "compute:\n"
        for _ in range(rng.randint(1, 3)):
            c = {"rule_id": rng.choice(FAST)}
            t += "- rule_id: %s\n" % c["rule_id"]
            if rng.random() < 0.5:
                c["resolute"] = rng.random() < 0.5
                t += "  resolute: %s\n" % ("true" if c["resolute"] else rng.choice(["false", "False"]))
            if rng.random() < 0.4:
                c["result"] = [frozenset(rng.sample(range(mm), rng.randint(1, mm))) for _ in range(2)]
                t += "  result: [" + ", ".join("[%s]" % ", ".join(map(str, sorted(x))) if rng.random() < 0.5 else "{%s}" % ", ".join(map(str, sorted(x)))
                                               for x in c["result"]) + "]\n"
            elif rng.random() < 0.3:
                c["result"] = None
                t += "  result: %s\n" % rng.choice(["null", ""])
            comp.append(c)
        parts.append(t)
    rng.shuffle(parts)
    if rng.random() < 0.3:
        parts.insert(0, "# comment\n")
    if rng.random() < 0.2:
        parts.insert(0, "---\n")
    return "".join(parts), mm, ws, size, desc, comp


def do_own(mon, rng):
    inst = gen.inst(rng, nmax=8, mmax=9, names=False, wkinds=["unit"])
    text, m, ws, size, desc, comp = compose(rng, inst, mon)
    fn = path(mon, "own.abc.yaml")
    open(fn, "w").write(text)
    mon.seen(text)
    q, size2, comp2, data = fileio.read_abcvoting_yaml_file(fn)
    same_profile(mon, q, votes_of(inst), ws, m, "file %r" % text)
    if size2 != size or data.get("description") != desc or len(comp2) != len(comp):
        mon.violate("file %r: read size %r, description %r, %d computations" % (text, size2, data.get("description"), len(comp2)), "own-file")
    for c, d in zip(comp, comp2):
        if d.get("profile") is not q or d.get("committeesize") != size:
            mon.violate("file %r: computation %r lacks the profile or size" % (text, d), "own-file")
        r = d.get("result")
        if ("result" in c) != ("result" in d) or (c.get("result") is None) != (r is None) or (r is not None and fsets(r) != c["result"]):
            mon.violate("file %r: result read as %r" % (text, r), "own-file")
        if {x: y for x, y in c.items() if x != "result"} != {x: y for x, y in d.items() if x not in ("result", "profile", "committeesize")}:
            mon.violate("file %r: computation read as %r" % (text, d), "own-file")
    mon.count("own-file")


DOCUMENTED = [
    ("no profile", lambda t: t.replace("profile:", "description:") if "description:" not in t else None),
    ("unknown key", lambda t: t + "num_voters: 3\n"),
    ("unknown key", lambda t: t + "Profile: [[0]]\n"),
    ("unknown key", lambda t: t + "weights: [1]\n"),
    ("too many weights", lambda t: t + "voter_weights: [" + ", ".join(["1"] * 50) + "]\n" if "voter_weights" not in t else None),
    ("too few weights", lambda t: t + "voter_weights: []\n" if "voter_weights" not in t else None),
    ("missing rule_id", lambda t: t + "compute:\n- resolute: true\n" if "compute" not in t else None),
    ("missing rule_id", lambda t: t + "compute:\n- rule_id: av\n- result: [[0]]\n" if "compute" not in t else None),
]
OTHER_BAD = ["", "- a\n", "profile:\n", "profile: [[0,0]]\n", "profile: [[5]]\nnum_cand: 2\n", "profile: [[0]]\nvoter_weights: [a]\n",
             "profile: [[0]]\nvoter_weights: [0]\n", "profile: [[0]]\nvoter_weights: [-1]\n", "profile: [[0]]\nprofile: [[1]]\n", "profile: [[0]\n",
             "profile: [[a]]\nnum_cand: 2\n", "profile: [0]\n", "profile: [[0]]\ncommitteesize: x\n", "profile: [[0.5]]\nnum_cand: 2\n", "profile: [[-1]]\nnum_cand: 2\n",
             "profile: [[0]]\nnum_cand: x\n", "profile: [[0]]\nnum_cand: 0\n", "profile: [[0]]\nnum_cand: -1\n", "profile: 3\nnum_cand: 2\n", "just text\n",
             "profile: [[0], null]\nnum_cand: 2\n", "profile: [[0]]\ncompute: [av]\n"]


def do_malformed(mon, rng):
    fn = path(mon, "bad.abc.yaml")
    if rng.random() < 0.7:
        inst = gen.inst(rng, nmax=5, mmax=5, names=False, wkinds=["unit"])
        text = compose(rng, inst, mon)[0]
        name, f = rng.choice(DOCUMENTED)
        t = f(text)
        if t is None:
            return
        if name == "unknown key" or "weights" in name or "rule_id" in name:
            pass
        open(fn, "w").write(t)
        mon.seen(t)
        try:
            r = fileio.read_abcvoting_yaml_file(fn)
        except fileio.MalformattedFileException:
            mon.count("malformed:documented")
        except Exception as e:
            mon.violate("file %r (%s): %s: %s instead of MalformattedFileException" % (t, name, type(e).__name__, e), "malformed-error")
        else:
            mon.violate("file %r (%s): accepted as %s" % (t, name, r[:2]), "malformed-accepted")
    else:
        t = rng.choice(OTHER_BAD)
        open(fn, "w").write(t)
        mon.seen(t)
        try:
            r = fileio.read_abcvoting_yaml_file(fn)
        except Exception:
            mon.count("malformed:other")
        else:
            mon.violate("file %r: accepted as %s" % (t, r[:2]), "malformed-accepted")


def run_case(case, mon):
    rng = random.Random(case["s"])
    {"round": do_round, "own": do_own, "malformed": do_malformed}[case["kind"]](mon, rng)
