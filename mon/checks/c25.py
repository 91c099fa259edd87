import itertools, math, copy, pickle, io, contextlib
from collections import Counter
from mon.common import *
from mon import gen
import numpy as np

ID = "C25"
RULE = ("random candidate collections in every container type, valid and invalid (duplicates, negative, too large, wrong types), candidate names, "
        "committee lists in random order with repetitions, pairs of sets (disjoint, nested, equal, empty), all sizes; each helper of misc against "
        "its set-theoretic definition; non-trivial: distinct (helper, arguments)")
ASSUMPTIONS = ["the order in which members are listed is fixed only up to determinism (ascending for at most ten candidates without names)",
               "members of list arguments are distinct"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 100000, "thorough": 1500000}
REQUIRED = ["set:accepted", "set:duplicate", "set:negative", "set:too-large", "set:wrong-type", "set:numpy", "sorted", "str-set", "str-names", "str-sets", "header-committees",
            "no-committees", "hamming", "header", "powerset", "powerset-max", "compare:equal", "compare:different", "compare:rejected", "verify:ok", "verify:rejected",
            "verify:resolute-ok", "verify:resolute-rejected", "verify:resolute-many", "dominates", "not-dominates", "binom", "binom:zero", "isclose:yes", "isclose:no",
            "candidate-set-ops", "time-it"]
HELPERS = ["cset", "cset", "bad", "sort", "text", "texts", "hamming", "header", "powerset", "compare", "verify", "dominate", "binom", "isclose", "ops"]


def gen_case(rng, idx, tier):
    return {"h": HELPERS[idx % len(HELPERS)], "s": rng.randrange(1 << 60)}


CONT = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "CandidateSet": lambda x: CandidateSet(x), "keys": lambda x: {c: None for c in x}.keys(),
        "dict": lambda x: {c: None for c in x}, "array": lambda x: np.array(list(x), dtype=int), "npints": lambda x: [np.int64(c) for c in x]}


def pick(rng, x, *excl):
    n = rng.choice([c for c in CONT if c not in excl])
    return n, CONT[n](x)


def subset(rng, m):
    return rng.sample(range(m), rng.choice([0, 1, m, rng.randint(0, m)])) if m else []


def plain(s):
    return [int(x) for x in s]


def names_for(rng, m):
    r = rng.random()
    if r < 0.25 and m <= 26:
        return "abcdefghijklmnopqrstuvwxyz"[:m]
    pool = ["Ann", "Bob", "c d", "\u00c5", "x1", "x10", "x2", "B", "a", "b", "Zed", "10", "9", "{", "}", "(q)", "-", "M\u00fcller"] + ["n%d" % i for i in range(m)]
    nm = rng.sample(pool, m)
    return nm if r < 0.7 else tuple(nm)


def run_case(case, mon):
    rng = random.Random(case["s"])
    globals()["h_" + case["h"]](mon, rng)


def h_cset(mon, rng):
    m = rng.choice([0, 1, 2, 3, 5, 10, 12, 40]) if rng.random() < 0.97 else 300
    x = subset(rng, m)
    num = rng.choice([None, m, m + 1, max(x) + 1 if x else 0])
    n, c = pick(rng, x)
    keep = list(c)
    s = CandidateSet(c, num_cand=num) if rng.random() < 0.7 or num is None else CandidateSet(c, num)
    mon.count("set:accepted")
    if n in ("array", "npints"):
        mon.count("set:numpy")
    mon.seen("cset", tuple(x), n, num)
    mon.check(isinstance(s, set) and isinstance(s, CandidateSet) and sorted(plain(s)) == sorted(x) and len(s) == len(x),
              lambda: "CandidateSet(%r) is %r" % (c, s), "set")
    mon.check(s == set(x) and set(x) == s and not (s != set(x)), lambda: "CandidateSet(%r) compares wrongly" % (c,), "set")
    mon.check(list(c) == keep, "argument changed", "purity")
    if isinstance(c, set):
        s.add(999)
        mon.check(999 not in c, "CandidateSet shares its argument", "purity")


def h_bad(mon, rng):
    m = rng.choice([1, 2, 3, 5, 10])
    x = subset(rng, m)
    kind = rng.choice(["duplicate", "negative", "too-large", "wrong-type"])
    num = rng.choice([None, m])
    if kind == "duplicate":
        x = x or [0]
        x.insert(rng.randint(0, len(x)), rng.choice(x))
        c = rng.choice([list, tuple, lambda z: np.array(z), lambda z: [np.int64(q) for q in z]])(x)
        exc = ValueError
    elif kind == "negative":
        x.insert(rng.randint(0, len(x)), rng.choice([-1, -5]))
        c = pick(rng, x, "CandidateSet")[1]
        exc = ValueError
    elif kind == "too-large":
        num = m
        x.insert(rng.randint(0, len(x)), rng.choice([m, m + 1, 100]))
        c = pick(rng, x)[1]
        exc = ValueError
    else:
        x = list(x)
        x.insert(rng.randint(0, len(x)), rng.choice(["a", "0", 0.5, 2.5, None, (1,), float("nan"), F(1, 2), np.float64(1.5), 7.0]))
        c = rng.choice([list, tuple])(x) if not any(isinstance(q, list) for q in x) else x
        exc = (TypeError, ValueError)
    mon.seen("bad", repr(c), num)
    mon.count("assertions")
    try:
        s = CandidateSet(c, num_cand=num)
    except exc:
        mon.count("set:" + kind)
    except Exception as e:
        mon.violate("CandidateSet(%r, %r) raised %r" % (c, num, e), "reject")
    else:
        mon.violate("CandidateSet(%r, %r) accepted: %r" % (c, num, s), "reject")


def committees(rng, m, same=None, n=None):
    n = (rng.randint(0, 6) if rng.random() < 0.99 else rng.choice([40, 150, 600])) if n is None else n
    k = rng.randint(0, m)
    return [frozenset(rng.sample(range(m), k if same or rng.random() < 0.7 else rng.randint(0, m))) for _ in range(n)]


def h_sort(mon, rng):
    m = rng.choice([1, 3, 5, 9, 10, 14])
    cs = committees(rng, m, same=rng.random() < 0.6)
    a = [pick(rng, c)[1] for c in cs]
    snap = [sorted(plain(x)) for x in a]
    arg = rng.choice([list, tuple, iter])(a)
    got = misc.sorted_committees(arg)
    mon.count("sorted")
    mon.seen("sort", tuple(tuple(sorted(c)) for c in cs))
    mon.check(isinstance(got, list) and all(type(x) is CandidateSet for x in got), lambda: "sorted_committees returns %r" % (got,), "sort")
    mon.check(Counter(frozenset(plain(x)) for x in got) == Counter(cs), lambda: "sorted_committees(%r) = %r" % (a, got), "sort")
    sh = list(cs)
    rng.shuffle(sh)
    mon.check([set(x) for x in misc.sorted_committees(sh)] == [set(x) for x in got], lambda: "order of sorted_committees depends on the input order: %r" % (sh,), "sort")
    if m <= 10 and len({len(c) for c in cs}) <= 1:
        mon.check([sorted(plain(x)) for x in got] == sorted(sorted(c) for c in cs), lambda: "sorted_committees(%r) = %r" % (a, got), "sort-order")
    mon.check([sorted(plain(x)) for x in a] == snap, "sorted_committees changed its argument", "purity")


def members(text):
    if not (text.startswith("{") and text.endswith("}")):
        return None
    return text[1:-1].split(", ") if text != "{}" else []


def h_text(mon, rng):
    m = rng.choice([1, 2, 4, 8, 10, 13, 25]) if rng.random() < 0.97 else 220
    x = subset(rng, m)
    c = pick(rng, x)[1]
    nm = names_for(rng, m) if rng.random() < 0.6 else None
    how = rng.randrange(3)
    if how == 0:
        t = misc.str_set_of_candidates(c, cand_names=nm) if nm is not None or rng.random() < 0.5 else misc.str_set_of_candidates(c)
    elif how == 1:
        t = CandidateSet(x).str_with_names(nm)
    else:
        nm = None
        t = str(CandidateSet(x))
    mon.count("str-set")
    want = [str(nm[q]) if nm is not None else str(q) for q in x]
    if nm is not None:
        mon.count("str-names")
    mon.seen("text", tuple(x), repr(nm))
    got = members(t)
    mon.check(got is not None and Counter(got) == Counter(want), lambda: "text of %r with names %r is %r" % (x, nm, t), "text")
    if nm is None and m <= 10:
        mon.check(got == [str(q) for q in sorted(x)], lambda: "text of %r is %r" % (x, t), "text-order")
    mon.check(misc.str_set_of_candidates(list(reversed(x)), nm) == misc.str_set_of_candidates(x, nm), lambda: "text of %r depends on the order" % (x,), "text-order")


def h_texts(mon, rng):
    m = rng.choice([1, 2, 4, 8, 13])
    cs = committees(rng, m)
    a = [pick(rng, c)[1] for c in cs]
    nm = names_for(rng, m) if rng.random() < 0.5 else None
    disp = lambda c: Counter(str(nm[q]) if nm is not None else str(q) for q in c)
    t = misc.str_sets_of_candidates(a, cand_names=nm)
    mon.count("str-sets")
    mon.seen("texts", tuple(tuple(sorted(c)) for c in cs), repr(nm))
    if cs:
        lines = t.split("\n")
        mon.check(lines[-1] == "" and len(lines) == len(cs) + 1 and all(ln.startswith(" ") for ln in lines[:-1]) and
                  [Counter(members(ln[1:]) or []) for ln in lines[:-1]] == [disp(c) for c in cs], lambda: "text of %r is %r" % (a, t), "texts")
    win = rng.random() < 0.5
    t2 = misc.str_committees_with_header(a, cand_names=nm, winning=win)
    word = "winning committee" if win else "committee"
    if not cs:
        mon.count("no-committees")
        mon.check(t2.strip() == "No %ss" % word and misc.str_committees_with_header(None, winning=win).strip() == "No %ss" % word, lambda: "header of no committees: %r" % t2, "texts")
        return
    mon.count("header-committees")
    mon.check(t2 == "%d %s:\n" % (len(cs), word + ("s" if len(cs) != 1 else "")) + t, lambda: "header text of %r is %r" % (a, t2), "texts")


def h_hamming(mon, rng):
    m = rng.choice([1, 3, 6, 12]) if rng.random() < 0.97 else 150
    x, y = subset(rng, m), subset(rng, m)
    r = rng.random()
    if r < 0.2:
        y = [q for q in range(m) if q not in x]
    elif r < 0.4:
        y = rng.sample(x, rng.randint(0, len(x)))
    elif r < 0.5:
        y = list(reversed(x))
    a, b = pick(rng, x)[1], pick(rng, y)[1]
    mon.count("hamming")
    mon.seen("hamming", tuple(sorted(x)), tuple(sorted(y)))
    w = len(set(x) ^ set(y))
    mon.check(misc.hamming(a, b) == w and misc.hamming(b, a) == w, lambda: "hamming(%r, %r) = %r, defined %d" % (a, b, misc.hamming(a, b), w), "hamming")


def h_header(mon, rng):
    t = "".join(rng.choice("abc XYZ-\u00e9") for _ in range(rng.randint(0, 30) if rng.random() < 0.95 else rng.randint(60, 300)))
    sym = rng.choice(["-", "=", "*"])
    got = misc.header(t, sym) if sym != "-" or rng.random() < 0.5 else misc.header(t)
    mon.count("header")
    lines = got.split("\n")
    mon.check(len(lines) >= 3 and lines[1] == t and lines[0] == sym * len(t) == lines[2], lambda: "header(%r, %r) = %r" % (t, sym, got), "header")
    if rng.random() < 0.2:
        buf = io.StringIO()
        val = rng.random()
        with contextlib.redirect_stdout(buf):
            r = misc.time_it(lambda a, b=0: (a, b))(val, b=3)
        mon.count("time-it")
        mon.check(r == (val, 3) and "seconds" in buf.getvalue(), "time_it", "time-it")


def h_powerset(mon, rng):
    n = rng.randint(0, 8)
    x = rng.sample(range(20), n)
    c = pick(rng, x)[1]
    mx = rng.choice([None, None, 0, 1, 2, n, n + 1, n + 3, rng.randint(0, 9)])
    got = [tuple(plain(t)) for t in (misc.powerset(c, mx) if mx is not None else misc.powerset(c) if rng.random() < 0.5 else misc.powerset(c, max_size=None))]
    mon.count("powerset")
    if mx is not None:
        mon.count("powerset-max")
    mon.seen("powerset", tuple(sorted(x)), mx)
    lim = n if mx is None else min(mx, n)
    want = {frozenset(t) for r in range(lim + 1) for t in itertools.combinations(x, r)}
    mon.check(len(got) == len(want) and {frozenset(t) for t in got} == want and all(len(t) == len(set(t)) for t in got),
              lambda: "powerset(%r, %r) gives %r" % (x, mx, got), "powerset")
    mon.check([len(t) for t in got] == sorted(len(t) for t in got), lambda: "powerset(%r, %r) is not ordered by size" % (x, mx), "powerset")


def h_compare(mon, rng):
    m = rng.choice([1, 2, 3, 5, 11])
    a = committees(rng, m, n=rng.randint(0, 4) if rng.random() < 0.98 else 120)
    b = list(a)
    rng.shuffle(b)
    for _ in range(rng.randint(0, 2)):
        r = rng.random()
        if r < 0.3 and b:
            b.append(rng.choice(b))
        elif r < 0.5 and b:
            b.pop()
        elif r < 0.8:
            b.append(committees(rng, m, n=1)[0])
        elif b:
            b[0] = frozenset(list(b[0])[1:])
    # reversed listing orders of the members: equal sets built differently
    A = [rng.choice([CandidateSet, set])(sorted(c, reverse=rng.random() < 0.5)) for c in a]
    B = [rng.choice([CandidateSet, set])(sorted(c, reverse=rng.random() < 0.5)) for c in b]
    mon.seen("compare", tuple(map(tuple, map(sorted, a))), tuple(map(tuple, map(sorted, b))))
    if rng.random() < 0.15 and A + B:
        bad = rng.choice([list, tuple, frozenset, str])
        L = A if A and (not B or rng.random() < 0.5) else B
        i = rng.randrange(len(L))
        L[i] = bad(L[i])
        mon.count("assertions")
        try:
            r = misc.compare_list_of_committees(A, B)
        except ValueError:
            mon.count("compare:rejected")
        else:
            mon.violate("compare_list_of_committees(%r, %r) = %r, not lists of sets" % (A, B, r), "compare")
        return
    w = set(a) == set(b)
    for X, Y in ((A, B), (B, A)):
        r = misc.compare_list_of_committees(X, Y)
        mon.check(r is w or r == w, lambda: "compare_list_of_committees(%r, %r) = %r" % (X, Y, r), "compare")
    mon.count("compare:equal" if w else "compare:different")


def h_verify(mon, rng):
    m = rng.choice([1, 2, 3, 5])
    res = rng.random() < 0.5
    a = list(dict.fromkeys(committees(rng, m, same=True, n=rng.choice([1, 1, 1, 2, 3]) if res else rng.randint(1, 4))))
    b = list(a)
    rng.shuffle(b)
    r = rng.random()
    if r < 0.3:
        b = b[1:]
    elif r < 0.6:
        b += [c for c in committees(rng, m, n=2)]
    A, B = [CandidateSet(c) for c in a], [CandidateSet(c) for c in b]
    mon.seen("verify", res, repr(A), repr(B))
    mon.count("assertions")
    kw = {"resolute": res} if res or rng.random() < 0.5 else {}
    try:
        misc.verify_expected_committees_equals_actual_committees(A, B, **kw)
        out = "ok"
    except ValueError:
        out = "ValueError"
    except RuntimeError:
        out = "RuntimeError"
    if res:
        want = "RuntimeError" if len(a) != 1 else "ok" if a[0] in b else "ValueError"
        mon.count({"ok": "verify:resolute-ok", "ValueError": "verify:resolute-rejected", "RuntimeError": "verify:resolute-many"}[want])
    else:
        want = "ok" if set(a) == set(b) else "ValueError"
        mon.count("verify:ok" if want == "ok" else "verify:rejected")
    if out != want:
        mon.violate("verification of %r against expected %r (resolute=%s): %s, defined %s" % (A, B, res, out, want), "verify")


def h_dominate(mon, rng):
    inst = gen.inst(rng, nmax=6, mmax=7, names=False)
    m = inst["m"]
    prof = profile(inst, 3)
    x = subset(rng, m)
    y = subset(rng, m) if rng.random() < 0.4 else [q for q in x if rng.random() < 0.7]
    if rng.random() < 0.5:
        x, y = y, x
    a, b = pick(rng, x)[1], pick(rng, y)[1]
    votes = [v for v in votes_of(inst)]
    w = all(len(v & set(x)) >= len(v & set(y)) for v in votes) and any(len(v & set(x)) > len(v & set(y)) for v in votes)
    got = misc.dominate(prof, a, b)
    mon.count("dominates" if w else "not-dominates")
    mon.seen("dominate", show(inst), tuple(sorted(x)), tuple(sorted(y)))
    mon.check(bool(got) == w and isinstance(got, bool), lambda: "dominate(%r, %r) = %r on %s" % (a, b, got, show(inst)), "dominate")


def h_binom(mon, rng):
    n = rng.choice([rng.randint(0, 12), rng.randint(0, 80), 1000])
    k = rng.choice([rng.randint(0, n + 3), 0, n, n + 1, 1])
    mon.count("binom" if k <= n else "binom:zero")
    mon.seen("binom", n, k)
    mon.eq(misc.binom(n, k), math.comb(n, k), "binom(%d, %d)" % (n, k), "binom")


def h_isclose(mon, rng):
    x = rng.choice([0.0, 1.0, rng.random(), rng.random() * 10 ** rng.randint(-9, 9), -1.5, 1e-13, 5e-13])
    e = rng.choice([0, 1e-14, 1e-13, 9e-13, 1.1e-12, 5e-12, 1e-9, 0.5]) * rng.choice([1, -1])
    y = rng.choice([x + e, x * (1 + e), x])
    fx, fy = F(x), F(y)
    d = abs(fx - fy)
    lim = max(F(1, 10 ** 12) * max(abs(fx), abs(fy)), F(1, 10 ** 12))
    if lim and abs(d / lim - 1) < F(1, 1000):
        return
    got = misc.isclose(x, y)
    mon.count("isclose:yes" if d <= lim else "isclose:no")
    mon.seen("isclose", x, y)
    mon.eq(bool(got), d <= lim, "isclose(%r, %r)" % (x, y), "isclose")
    mon.eq(bool(misc.isclose(y, x)), d <= lim, "isclose(%r, %r)" % (y, x), "isclose")


def h_ops(mon, rng):
    m = rng.choice([1, 3, 6, 12])
    x, y = subset(rng, m), subset(rng, m)
    s, t = CandidateSet(x), CandidateSet(y)
    mon.count("candidate-set-ops")
    mon.seen("ops", tuple(sorted(x)), tuple(sorted(y)))
    mon.eq((set(s | t), set(s & t), set(s - t), set(s ^ t), s <= t, s < t, s.isdisjoint(t), s == t),
           (set(x) | set(y), set(x) & set(y), set(x) - set(y), set(x) ^ set(y), set(x) <= set(y), set(x) < set(y), not set(x) & set(y), set(x) == set(y)),
           "set operations of %r and %r" % (x, y), "ops")
    for z in (copy.copy(s), copy.deepcopy(s), pickle.loads(pickle.dumps(s)), s.copy()):
        mon.check(z == s and z is not s, lambda: "copy of %r is %r" % (s, z), "ops")
    mon.check(CandidateSet() == set() and str(CandidateSet()) == "{}", "empty CandidateSet", "ops")
