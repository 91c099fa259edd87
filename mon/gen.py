"""Workload generators: election instances as plain JSON-able data.

instance = {"m": number of candidates, "k": committee size, "votes": [[cand, ...], ...] (listed order),
            "w": None | [weight, ...] (ints or "p/q" strings), "names": None | [str, ...], "tag": recipe}
"""
from fractions import Fraction
from math import comb


def W(inst):
    """weights as exact numbers"""
    if inst.get("w") is None:
        return [1] * len(inst["votes"])
    return [w if isinstance(w, int) else (Fraction(w) if isinstance(w, str) else Fraction(w)) for w in inst["w"]]


def _ballot(rng, cands, size):
    b = rng.sample(list(cands), min(size, len(cands)))
    return b


def _votes_impartial(rng, m, n):
    p = rng.choice([0.15, 0.3, 0.5, 0.7, 0.85])
    out = []
    for _ in range(n):
        b = [c for c in range(m) if rng.random() < p]
        rng.shuffle(b)
        out.append(b)
    return out


def _votes_sized(rng, m, n):
    s = rng.randint(1, max(1, min(m, 4)))
    return [_ballot(rng, range(m), s if rng.random() < 0.7 else rng.randint(1, m)) for _ in range(n)]


def _votes_partylist(rng, m, n):
    cuts = sorted(rng.sample(range(1, m), min(m - 1, rng.randint(0, 3)))) if m > 1 else []
    parts = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [m])]
    out = []
    for _ in range(n):
        b = list(rng.choice(parts))
        rng.shuffle(b)
        out.append(b)
    return out


def _votes_few_types(rng, m, n):
    types = [_ballot(rng, range(m), rng.randint(1, m)) for _ in range(rng.randint(1, 3))]
    return [list(rng.choice(types)) for _ in range(n)]


def _votes_cyclic(rng, m, n):
    r = rng.randint(1, min(3, m))
    return [[(i + j) % m for j in range(r)] for i in range(n)]


def _votes_core_periphery(rng, m, n):
    core = rng.sample(range(m), rng.randint(1, max(1, m // 2)))
    rest = [c for c in range(m) if c not in core]
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            b = list(core)
        else:
            b = _ballot(rng, rest or core, rng.randint(1, 3))
        if rng.random() < 0.3:
            b = list(dict.fromkeys(b + [rng.randrange(m)]))
        out.append(b)
    return out


def _votes_clones(rng, m, n):
    base = _votes_impartial(rng, max(1, (m + 1) // 2), n)
    out = []
    for b in base:
        c = [x for y in b for x in (2 * y, 2 * y + 1) if x < m]
        if c and rng.random() < 0.2:
            c.remove(rng.choice(c))
        out.append(c)
    return out


def _votes_nested(rng, m, n):
    perm = rng.sample(range(m), m)
    return [perm[: rng.randint(0, m)] for _ in range(n)]


RECIPES = [_votes_impartial, _votes_sized, _votes_partylist, _votes_few_types, _votes_cyclic,
           _votes_core_periphery, _votes_clones, _votes_nested]


def weights(rng, n, kind=None):
    kind = kind or rng.choice(["unit"] * 4 + ["int", "int", "frac", "fracsmall", "bigint"])
    if kind == "unit":
        return None, kind
    if kind == "int":
        return [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(n)], kind
    if kind == "bigint":
        return [rng.randint(1, 60) for _ in range(n)], kind
    if kind == "huge":
        return [rng.randint(1, 10 ** 6) for _ in range(n)], kind
    if kind == "frac":
        return [rng.choice([1, 2, "1/2", "3/2", "4/3", "5/3", "2/3", "7/4"]) for _ in range(n)], kind
    if kind == "fracsmall":
        return [rng.choice(["1/2", "1/3", "2/3", "1/4", "3/5", "1/5"]) for _ in range(n)], kind
    raise ValueError(kind)


NAMEPOOL = ["a", "b", "c", "Zoë", "10", "2", "x y", "d", "é", "A", "z", "aa", "B1", "0", "longer name", "q"]


def inst(rng, nmax=9, mmax=7, kmax=6, nmin=1, mmin=1, wkinds=None, max_committees=None,
         allow_empty=True, ensure_nonempty=False, recipe=None, names=True):
    while True:
        m = rng.randint(mmin, mmax)
        if rng.random() < 0.04 and mmin <= 1:
            m = 1
        k = rng.randint(1, min(m, kmax))
        r = rng.random()
        if r < 0.05:
            k = min(m, kmax)
        elif r < 0.10:
            k = 1
        if max_committees and comb(m, k) > max_committees:
            continue
        break
    n = rng.randint(nmin, nmax)
    rec = recipe or rng.choice(RECIPES)
    votes = rec(rng, m, n)
    r = rng.random()
    if r < 0.15:        # unapproved candidates
        un = set(rng.sample(range(m), rng.randint(1, max(1, m // 2))))
        votes = [[c for c in b if c not in un] for b in votes]
    elif r < 0.25 and allow_empty:     # empty ballots
        for _ in range(rng.randint(1, max(1, n // 3))):
            votes[rng.randrange(n)] = []
    elif r < 0.32:      # universal voter
        votes[rng.randrange(n)] = list(range(m))
    if rng.random() < 0.25 and n > 1:   # duplicates
        for _ in range(rng.randint(1, n)):
            votes[rng.randrange(n)] = list(votes[rng.randrange(n)])
    if not allow_empty:
        votes = [b if b else [rng.randrange(m)] for b in votes]
    if ensure_nonempty and not any(votes):
        votes[0] = [rng.randrange(m)]
    w, kind = weights(rng, n, rng.choice(wkinds) if wkinds else None)
    nm = None
    if names and rng.random() < 0.2:
        nm = rng.sample(NAMEPOOL, min(m, len(NAMEPOOL))) + ["n%d" % i for i in range(len(NAMEPOOL), m)]
        nm = nm[:m]
    return {"m": m, "k": k, "votes": votes, "w": w, "names": nm, "tag": rec.__name__[7:] + "/" + kind}


def approved(inst_):
    return sorted({c for b in inst_["votes"] for c in b})


def near(rng, inst_, base=None):
    """nearly equal large weights; (instance, True if float arithmetic separates all values that differ)"""
    n = len(inst_["votes"])
    base = base or rng.choice([1000, 1000, 10000, 300000, 10 ** 13, 10 ** 19, 10 ** 15])
    out = dict(inst_, w=[base + rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(n)], tag="near%d" % base)
    if base == 10 ** 15:
        out["w"] = ["%d/%d" % (x, base) for x in out["w"]]
    safe = base < 300000 and n <= 8
    if safe:
        out["k"] = min(inst_["k"], 2 if base == 1000 else 1)
    return out, safe


EXACT = ["gmpy2-fractions", "standard-fractions"]


def tight(rng, mmax=7, kmax=5, nmax=8, wkinds=None):
    """(instance, committee): a coalition of just (not) enough voters whose only common objection T shares members
    with the committee, each coalition voter approves in T one more (rarely as many) than in the committee"""
    m = rng.randint(3, mmax)
    k = rng.randint(1, min(m - 1, kmax))
    perm = rng.sample(range(m), m)
    com, rest = perm[:k], perm[k:]
    t = rng.randint(1, k)
    new = rng.randint(1, min(t, len(rest)))
    T = rng.sample(rest, new) + rng.sample(com, t - new)
    out = [c for c in range(m) if c not in T]
    n = rng.randint(2, nmax)
    need = -(-t * n // k)
    size = max(1, min(n, need - (rng.random() < 0.3)))
    votes = []
    for _ in range(size):
        b = [c for c in T if rng.random() < 0.75] or [rng.choice(T)]
        have = len(set(b) & set(com))
        add = [c for c in com if c not in T]
        rng.shuffle(add)
        b += add[: max(0, len(set(b) & set(T)) - have - (rng.random() < 0.8))]
        b += [c for c in out if c not in com and rng.random() < 0.1]
        votes.append(b)
    for _ in range(n - size):
        votes.append(rng.sample(com, rng.randint(1, k)) if rng.random() < 0.8 else [])
    rng.shuffle(votes)
    for b in votes:
        rng.shuffle(b)
    w, kind = (None, "unit") if not wkinds else weights(rng, n, rng.choice(wkinds))
    return {"m": m, "k": k, "votes": votes, "w": w, "names": None, "tag": "tight/" + kind}, com


def spread(rng, inst_):
    """the same instance among many more candidates: a random injection into a candidate range of 17..40,
    every other candidate has one supporter of its own with a tiny, distinct weight (no further ties)"""
    m0 = inst_["m"]
    m = rng.randint(17, 40)
    f = rng.sample(range(m), m0)
    votes = [[f[c] for c in b] for b in inst_["votes"]]
    w = [str(x) for x in W(inst_)]
    rest = [c for c in range(m) if c not in f]
    rng.shuffle(rest)
    for i, c in enumerate(rest):
        votes.append([c])
        w.append("%d/%d" % (i + 1, 100 * m))
    return {"m": m, "k": min(inst_["k"], rng.choice([1, 2, 3, 3, 4, 8])), "votes": votes, "w": w, "names": None, "tag": "spread"}


def large(rng, mmax=24, nmax=70, kmax=16, wkinds=("unit", "bigint", "int"), **kw):
    """an instance beyond the sizes where tables, string orders or index arithmetic of small cases still fit"""
    out = inst(rng, nmin=15, nmax=nmax, mmin=12, mmax=mmax, kmax=kmax, wkinds=list(wkinds), **kw)
    if rng.random() < 0.6:
        out["k"] = rng.randint(min(9, kmax, out["m"]), min(kmax, out["m"]))
    out["tag"] = "large/" + out["tag"]
    return out


def wide(rng, max_committees=100, wkinds=None, mmax=14, nmax=12, names=True, **kw):
    """many candidates and a very small or very large committee: few committees, long selection sequences"""
    m = rng.randint(9, mmax)
    out = inst(rng, nmin=2, nmax=nmax, mmin=m, mmax=m, kmax=m, wkinds=wkinds, names=names)
    ks = [k for k in (1, 2, m - 3, m - 2, m - 1, m - 1, m) if comb(m, k) <= max_committees]
    out["k"] = rng.choice(ks)
    out["tag"] = "wide/" + out["tag"]
    return out


def crowd(rng, wkinds=None, nmax=60, names=True, mass=0, **kw):
    """many voters, few candidates; sometimes an electorate of up to `mass` voters with few kinds of ballots"""
    if mass and rng.random() < 0.35:
        out = inst(rng, nmin=6, nmax=24, mmin=3, mmax=5, kmax=4, wkinds=["unit"], names=names)
        n = rng.randint(60, mass)
        votes = [list(rng.choice(out["votes"])) for _ in range(n)]
        w, kind = weights(rng, n, rng.choice(wkinds)) if wkinds else weights(rng, n)
        out.update(votes=votes, w=w, tag="mass/" + kind)
        return out
    out = inst(rng, nmin=22, nmax=nmax, mmin=2, mmax=5, kmax=5, wkinds=wkinds, names=names)
    out["tag"] = "crowd/" + out["tag"]
    return out
