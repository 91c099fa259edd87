import math, zlib
import numpy as np
from mon.common import *
from abcvoting import generate as G

ID = "C22"
RULE = ("every generator with random parameters (extremes included), called directly and through random_profile, with reseeded random sources; "
        "an oracle recomputes the ballots from the reported points (Euclidean models) or checks size, range, degenerate parameters and supports; "
        "batches of large samples give exact binomial acceptance intervals for approval, co-approval and repetition frequencies; "
        "non-trivial: distinct (generator, parameters, profile)")
ASSUMPTIONS = ["random sources are reseeded per case, so every run is reproducible; frequencies are accepted within 6.5 standard deviations plus a constant",
               "approval of a candidate whose distance lies within 1e-9 of the boundary is not judged",
               "when both points and a point distribution are given for one side, the choice between them is not judged"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 12000, "thorough": 90000}
IDS = ["IC fixed-size", "IC", "Truncated Mallows", "Urn fixed-size", "Urn", "Truncated Urn", "Euclidean VCR", "Euclidean fixed-size",
       "Euclidean Threshold", "Resampling", "Disjoint Resampling", "Noise"]
REQUIRED = ["gen:" + i for i in IDS] + ["direct", "declared", "degenerate", "points-reported", "points-given", "unknown-id", "missing-id", "bad-params",
           "large-cands", "freq:many-candidates", "freq:" + IDS[0]] + ["freq:" + i for i in IDS if "Euclid" not in i] + ["point:" + d for d in
           ("1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_square", "2d_disc", "2d_gaussian", "2d_gaussian_disc", "3d_cube")] + \
           ["all-groups", "radius-list", "fresh-randomness", "bad-distribution"]
FUN = {"IC fixed-size": "random_ic_fixed_size_profile", "IC": "random_ic_profile", "Truncated Mallows": "random_mallows_profile",
       "Urn fixed-size": "random_urn_fixed_size_profile", "Urn": "random_urn_profile", "Truncated Urn": "random_truncated_urn_profile",
       "Euclidean VCR": "random_euclidean_vcr_profile", "Euclidean fixed-size": "random_euclidean_fixed_size_profile",
       "Euclidean Threshold": "random_euclidean_threshold_profile", "Resampling": "random_resampling_profile",
       "Disjoint Resampling": "random_disjoint_resampling_profile", "Noise": "random_noise_model_profile"}

_real_rng = np.random.default_rng
_state = {"s": 0, "n": 0}


def _seeded(seed=None):
    if seed is None:
        _state["n"] += 1
        return _real_rng([_state["s"], _state["n"]])
    return _real_rng(seed)


def worker_init(mon):
    np.random.default_rng = _seeded


def reseed(s):
    _state["s"], _state["n"] = s % (1 << 32), 0
    np.random.seed(s % (1 << 32))
    G.rng = _real_rng([s % (1 << 32), 77])


def gen_case(rng, idx, tier):
    r = idx % 20
    kind = "freq" if r == 0 else "points" if r == 1 else "bad" if r == 2 else "shape"
    return {"s": rng.randrange(1 << 60), "kind": kind, "id": IDS[(idx // 20) % 12] if kind == "freq" else rng.choice(IDS), "k": idx // 20}


DISTS = ["1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_square", "2d_disc", "2d_gaussian", "2d_gaussian_disc", "3d_cube"]


def dist(rng, dim, wide=True):
    name = rng.choice([d for d in DISTS if d[0] == str(dim)])
    kw = {}
    if rng.random() < 0.6:
        kw["center_point"] = rng.choice([0, 0.5, 2]) if rng.random() < 0.5 else [rng.choice([0, 0.5, 1, -3]) for _ in range(dim)]
    if rng.random() < 0.5:
        kw["sigma"] = rng.choice([0.1, 0.15, 0.3])
    if rng.random() < 0.5:
        kw["width"] = rng.choice([0.5, 1.0, 2.0])
    return G.PointProbabilityDistribution(name, **kw), (name, kw)


def prob(rng):
    return rng.choice([0, 1, 0.5, 0.25, 0.9, rng.random()])


def call(rng, id_, n, m, kw, mon):
    if rng.random() < 0.5:
        mon.count("direct")
        return getattr(G, FUN[id_])(n, m, **kw)
    mon.count("declared")
    d = dict(kw, id=id_)
    before = dict(d)
    res = G.random_profile(n, m, d)
    if set(before) != set(d):
        mon.violate("random_profile changed the specification %r to %r" % (before, d), "spec-changed")
    return res


def parameters(rng, id_, n, m, mon):
    if id_ in ("IC fixed-size",):
        return {"setsize": rng.randint(0, m)}
    if id_ == "IC":
        return {"p": prob(rng)} if rng.random() < 0.9 else {}
    if id_ == "Truncated Mallows":
        return {"setsize": rng.randint(0, m), "dispersion": prob(rng)}
    if id_ in ("Urn fixed-size", "Truncated Urn"):
        return {"setsize": rng.randint(0, m), "replace": rng.choice([0, 0.1, 1, 5.0, 1e9])}
    if id_ == "Urn":
        return {"p": prob(rng), "replace": rng.choice([0, 0.1, 1, 5.0, 1e9])}
    if id_ == "Resampling":
        return {"p": prob(rng), "phi": prob(rng)}
    if id_ == "Disjoint Resampling":
        g = rng.randint(1, 4)
        kw = {"p": rng.choice([0, 1 / g, 0.5 / g, rng.random() / g]), "phi": prob(rng)}
        if g != 2 or rng.random() < 0.5:
            kw["num_groups"] = g
        if rng.random() < 0.1:
            del kw["phi"]
        return kw
    if id_ == "Noise":
        kw = {"p": prob(rng), "phi": prob(rng)}
        if rng.random() < 0.7:
            kw["distance"] = rng.choice(["hamming", "jaccard", "zelinka", "bunke-shearer"])
        return kw
    raise KeyError(id_)


def valid(mon, p, n, m, what):
    mon.count("assertions")
    if not isinstance(p, Profile):
        mon.violate("%s returned %r" % (what, p), "type")
    if len(p) != n or p.num_cand != m:
        mon.violate("%s: %d voters and %d candidates" % (what, len(p), p.num_cand), "shape")
    for v in p:
        if v.weight != 1 or any(not (0 <= c < m and int(c) == c) for c in v.approved):
            mon.violate("%s: ballot %r weight %r" % (what, v.approved, v.weight), "ballot")
    return [frozenset(int(c) for c in v.approved) for v in p]


def central(p, m):
    return math.floor(F(repr(p)) * m) if isinstance(p, float) else int(p * m)


def do_shape(mon, rng, id_):
    n = rng.choice([1, 2, 3, 5, 10, 30])
    m = rng.choice([1, 2, 3, 4, 5, 8, 15]) if rng.random() < 0.7 else rng.randint(20, 120)
    if m >= 20:
        mon.count("large-cands")
    mon.count("gen:" + id_)
    if id_.startswith("Euclid"):
        return do_euclid(mon, rng, id_, n, m)
    kw = parameters(rng, id_, n, m, mon)
    what = "%s n=%d m=%d %r" % (id_, n, m, kw)
    if id_ == "Noise" and m > 60:
        m = 30
    bs = valid(mon, call(rng, id_, n, m, kw, mon), n, m, what)
    mon.seen((what, tuple(map(tuple, map(sorted, bs)))))
    if "setsize" in kw:
        if any(len(b) != kw["setsize"] for b in bs):
            mon.violate("%s: ballot sizes %s" % (what, sorted({len(b) for b in bs})), "setsize")
    full, none = frozenset(range(m)), frozenset()
    if id_ == "IC" and kw.get("p") in (0, 1) or id_ == "Urn" and kw["p"] in (0, 1):
        want = {full if kw["p"] == 1 else none}
        mon.count("degenerate")
        if set(bs) != want:
            mon.violate("%s: ballots %s" % (what, srt(bs)), "degenerate")
    if kw.get("replace") == 1e9 and n <= 10:
        mon.count("degenerate")
        if len(set(bs)) != 1:
            mon.violate("%s: replacing by 1e9 copies still gave %d different ballots" % (what, len(set(bs))), "degenerate")
    if id_ == "Truncated Mallows" and kw["dispersion"] == 0:
        mon.count("degenerate")
        if len(set(bs)) != 1:
            mon.violate("%s: dispersion 0 gave different ballots %s" % (what, srt(bs)), "degenerate")
    if id_ in ("Resampling", "Noise") and kw["phi"] == 0:
        k = int(kw["p"] * m)
        if id_ == "Noise" and k == 0 and kw.get("distance") in ("jaccard", "bunke-shearer"):
            return
        mon.count("degenerate")
        if set(bs) != {frozenset(range(k))}:
            mon.violate("%s: phi=0 gave ballots %s instead of the central ballot" % (what, srt(bs)), "degenerate")
    if id_ == "Disjoint Resampling" and rng.random() < 0.4:    # enough voters to see every group
        g = rng.randint(1, 5)
        kk = rng.randint(1, max(1, m // g))
        if g * kk <= m:
            q = {"p": (kk + 0.5) / m if (kk + 0.5) / m * g <= 1 else kk / m, "phi": 0, "num_groups": g}
            size = int(q["p"] * m)
            w2 = "%s n=150 m=%d %r" % (id_, m, q)
            seen = set(valid(mon, call(rng, id_, 150, m, q, mon), 150, m, w2))
            mon.count("all-groups")
            if size >= 1 and (len(seen) != g or any(len(b) != size for b in seen) or any(a != b and a & b for a in seen for b in seen)):
                mon.violate("%s: 150 voters use the ballots %s, expected %d disjoint sets of size %d" % (w2, srt(seen), g, size), "groups")
    if id_ == "Disjoint Resampling" and kw.get("phi") == 0:
        g = kw.get("num_groups", 2)
        k = int(kw["p"] * m)
        mon.count("degenerate")
        groups = set(bs)
        if len(groups) > g or any(len(b) != k for b in groups) or any(a != b and a & b for a in groups for b in groups):
            mon.violate("%s: phi=0 gave ballots %s, expected at most %d disjoint sets of size %d" % (what, srt(bs), g, k), "degenerate")


def do_euclid(mon, rng, id_, n, m):
    dim = rng.choice([1, 2, 2, 3])
    kw, desc = {}, []
    given = {}
    for side, cnt in (("voter", n), ("candidate", m)):
        if rng.random() < 0.45:
            pts = [[rng.choice([0, 1, 2, 0.5, rng.random(), rng.gauss(0, 1)]) for _ in range(dim)] for _ in range(cnt)]
            if rng.random() < 0.4:
                pts = [tuple(x) for x in pts] if rng.random() < 0.5 else np.array(pts, dtype=float)
            kw[side + "_points"] = pts
            given[side] = np.array(pts, dtype=float)
            kw[side + "_prob_distribution"] = None
            mon.count("points-given")
        else:
            d, ds = dist(rng, dim)
            kw[side + "_prob_distribution"] = d
            desc.append(ds)
            mon.count("point:" + ds[0])
    if id_ == "Euclidean VCR":
        def rad(cnt):
            if rng.random() < 0.4:
                mon.count("radius-list")
                return [rng.choice([0, 0.1, 0.5, rng.random()]) for _ in range(cnt)]
            return rng.choice([0, 0.1, 0.25, 0.5, 1.0, 10.0, rng.random()])
        kw["voter_radius"], kw["candidate_radius"] = rad(n), rad(m)
    elif id_ == "Euclidean fixed-size":
        kw["setsize"] = rng.randint(0, m)
    else:
        kw["threshold"] = rng.choice([1, 1.0, 1.2, 2, 5.5, 1 + rng.random()])
    kw["return_points"] = True
    what = "%s n=%d m=%d dim=%d %s %r" % (id_, n, m, dim, desc, {x: y for x, y in kw.items() if "prob" not in x and "points" not in x})
    res = call(rng, id_, n, m, kw, mon)
    if not (isinstance(res, tuple) and len(res) == 3):
        mon.violate("%s: return_points gave %r" % (what, type(res)), "return-points")
    p, vp, cp = res
    bs = valid(mon, p, n, m, what)
    vp, cp = np.array(vp, dtype=float), np.array(cp, dtype=float)
    if vp.shape != (n, dim) or cp.shape != (m, dim):
        mon.violate("%s: points have shapes %s and %s" % (what, vp.shape, cp.shape), "points")
    for side, arr in (("voter", vp), ("candidate", cp)):
        if side in given and not np.array_equal(given[side], arr):
            mon.violate("%s: reported %s points are not the given ones" % (what, side), "points")
        d = kw[side + "_prob_distribution"]
        if d is not None:
            support(mon, d, arr, what)
    mon.count("points-reported")
    mon.seen((what, tuple(map(tuple, map(sorted, bs)))))
    for i, b in enumerate(bs):
        ds = [math.sqrt(sum((float(a) - float(c)) ** 2 for a, c in zip(vp[i], q))) for q in cp]
        mon.count("assertions")
        if id_ == "Euclidean VCR":
            vr = kw["voter_radius"][i] if isinstance(kw["voter_radius"], list) else kw["voter_radius"]
            for c in range(m):
                cr = kw["candidate_radius"][c] if isinstance(kw["candidate_radius"], list) else kw["candidate_radius"]
                if abs(ds[c] - vr - cr) > 1e-9 and (ds[c] < vr + cr) != (c in b):
                    mon.violate("%s: voter %d at distance %r from candidate %d, radii %r and %r, approved: %s" % (what, i, ds[c], c, vr, cr, c in b), "vcr")
        elif id_ == "Euclidean fixed-size":
            if len(b) != kw["setsize"]:
                mon.violate("%s: voter %d approves %d candidates" % (what, i, len(b)), "setsize")
            far = max([ds[c] for c in b], default=-1)
            near = min([ds[c] for c in range(m) if c not in b], default=math.inf)
            if far > near + 1e-9:
                mon.violate("%s: voter %d approves a candidate at distance %r but not one at %r" % (what, i, far, near), "nearest")
        else:
            lim = min(ds) * kw["threshold"]
            for c in range(m):
                if ds[c] == min(ds) and c not in b and min(ds) > 1e-9:
                    mon.violate("%s: voter %d does not approve a closest candidate" % (what, i), "threshold")
                if abs(ds[c] - lim) > 1e-9 and (ds[c] < lim) != (c in b):
                    mon.violate("%s: voter %d at distance %r (closest %r) from candidate %d, approved: %s" % (what, i, ds[c], min(ds), c, c in b), "threshold")
    if rng.random() < 0.3:
        kw["return_points"] = False
        q = call(rng, id_, n, m, kw, mon)
        valid(mon, q, n, m, what + " without points")


def support(mon, d, pts, what):
    """points lie in the support of the distribution"""
    c, w = np.array(d.center_point, dtype=float), d.width
    for x in np.array(pts, dtype=float).reshape(-1, len(c)):
        if d.name in ("1d_interval", "1d_gaussian_interval", "2d_square", "3d_cube"):
            ok = bool((np.abs(x - c) <= w / 2 + 1e-9).all())
        elif d.name in ("2d_disc", "2d_gaussian_disc"):
            ok = float(np.linalg.norm(x - c)) <= w / 2 + 1e-9
        else:
            ok = bool((np.abs(x - c) <= 12 * d.sigma).all())
        mon.count("points")
        if not ok:
            mon.violate("%s: point %s outside the support of %s (center %s, width %r, sigma %r)" % (what, x, d.name, c, w, d.sigma), "support")


def do_points(mon, rng):
    dim = rng.choice([1, 2, 2, 3])
    d, ds = dist(rng, dim)
    mon.count("point:" + ds[0])
    N = 400
    if rng.random() < 0.5:
        pts = np.array([G.random_point(d) for _ in range(N)])
    else:
        pts = np.array(d.prefsampling_function()(num_points=N))
    mon.seen((repr(ds), float(pts.sum())))
    if pts.shape != (N, dim):
        mon.violate("%r: points of shape %s" % (ds, pts.shape), "points")
    support(mon, d, pts, repr(ds))
    c, w, s = np.array(d.center_point, dtype=float), d.width, d.sigma
    want = ds[1].get("center_point", 0.5)
    wc = np.array([want] * dim if not isinstance(want, list) else want, dtype=float)
    if not np.array_equal(c, wc):
        mon.violate("%r: center is %s" % (ds, c), "center")
    if len({tuple(x) for x in pts}) < N:
        mon.violate("%r: repeated points among %d draws" % (ds, N), "points-repeat")
    # mean and spread, for every coordinate: N=400; 7 standard errors
    trunc = lambda: math.sqrt(_truncvar(w / 2 / s)) * s
    sd = {"1d_interval": w / math.sqrt(12), "2d_square": w / math.sqrt(12), "3d_cube": w / math.sqrt(12), "1d_gaussian": s, "2d_gaussian": s,
          "2d_disc": w / 4, "1d_gaussian_interval": trunc(), "2d_gaussian_disc": math.sqrt(_truncdisc(w / 2 / s)) * s}[d.name]
    for j in range(dim):
        mean = float(pts[:, j].mean())
        if abs(mean - c[j]) > 7 * sd / math.sqrt(N) + 1e-9:
            mon.violate("%r: mean of coordinate %d is %r" % (ds, j, mean), "mean")
        rs = float(np.sqrt(((pts[:, j] - c[j]) ** 2).mean()))
        if not (0.72 * sd < rs < 1.30 * sd):
            mon.violate("%r: standard deviation of coordinate %d is %r, expected about %r" % (ds, j, rs, sd), "spread")
    mon.count("assertions", 2 * dim)


def _truncvar(a):
    phi = math.exp(-a * a / 2) / math.sqrt(2 * math.pi)
    Z = math.erf(a / math.sqrt(2))
    return 1 - 2 * a * phi / Z


def _truncdisc(a):
    e = math.exp(-a * a / 2)
    return (2 - (a * a + 2) * e) / (1 - e) / 2


def accept(mon, hits, N, q, what, mech="frequency"):
    """hits ~ Binomial(N, q)"""
    mon.count("assertions")
    dev = abs(hits - N * q)
    if dev > 6.5 * math.sqrt(N * q * (1 - q)) + 3 + 1e-6 * N:
        mon.violate("%s: %d of %d, expected about %.1f" % (what, hits, N, N * q), mech)


def mallows_inclusion(m, s, phi):
    """probability that the candidate ranked i-th by the reference ranking is among the first s (repeated insertion)"""
    out = []
    for i in range(1, m + 1):
        z = sum(phi ** j for j in range(i))
        pos = [0.0] + [phi ** (i - p) / z for p in range(1, i + 1)]
        for t in range(i + 1, m + 1):
            z = sum(phi ** j for j in range(t))
            cum = [0.0]
            for p in range(1, t + 1):
                cum.append(cum[-1] + phi ** (t - p) / z)
            new = [0.0] * (t + 1)
            for p in range(1, t):
                new[p + 1] += pos[p] * cum[p]       # inserted before
                new[p] += pos[p] * (1 - cum[p])
            pos = new
        out.append(min(1.0, sum(pos[1:s + 1])))
    return out


def do_freq(mon, rng, id_):
    if id_.startswith("Euclid"):
        id_ = rng.choice([i for i in IDS if not i.startswith("Euclid")])
    m = rng.randint(2, 5)
    if id_ in ("IC", "IC fixed-size", "Truncated Mallows", "Resampling", "Disjoint Resampling") and rng.random() < 0.4:
        m = rng.randint(6, 40)
        mon.count("freq:many-candidates")
    N = 3000
    if id_ == "IC fixed-size":
        kw = {"setsize": rng.randint(1, m)}
    elif id_ == "IC":
        kw = {"p": rng.choice([0.1, 0.3, 0.5, 0.8])} if rng.random() < 0.8 else {}
    elif id_ == "Truncated Mallows":
        kw = {"setsize": rng.randint(1, m), "dispersion": rng.choice([0.2, 0.5, 0.8, 1])}
    elif id_ in ("Urn fixed-size", "Truncated Urn"):
        kw = {"setsize": rng.randint(1, m), "replace": rng.choice([0, 0.5, 1, 2])}
    elif id_ == "Urn":
        kw = {"p": rng.choice([0.2, 0.5, 0.7]), "replace": rng.choice([0, 0.5, 1, 2])}
    elif id_ in ("Resampling",):
        kw = {"p": rng.choice([0.2, 0.5, 0.7]), "phi": rng.choice([0.1, 0.4, 0.8, 1])}
    elif id_ == "Disjoint Resampling":
        g = rng.randint(2, 3)
        kw = {"p": rng.choice([1 / g, 0.3]), "phi": rng.choice([0.1, 0.4, 0.8, 1]), "num_groups": g}
    else:
        kw = {"p": rng.choice([0.34, 0.5, 0.7]), "phi": rng.choice([0.2, 0.5, 0.8]), "distance": rng.choice(["hamming", "jaccard", "zelinka", "bunke-shearer"])}
    mon.count("freq:" + id_)
    what = "%s m=%d %r" % (id_, m, kw)
    f = getattr(G, FUN[id_])
    if "Urn" in id_:
        return urn_freq(mon, rng, id_, m, kw, f, what)
    bs = valid(mon, f(N, m, **kw), N, m, what)
    mon.seen((what, N))
    cnt = [sum(c in b for b in bs) for c in range(m)]
    pair = lambda a, b: sum(a in x and b in x for x in bs)
    if id_ == "IC":
        p = kw.get("p", 0.5)
        for c in range(m):
            accept(mon, cnt[c], N, p, what + ": approvals of %d" % c)
        accept(mon, pair(0, 1), N, p * p, what + ": joint approvals")
    elif id_ == "IC fixed-size":
        s = kw["setsize"]
        for c in range(m):
            accept(mon, cnt[c], N, s / m, what + ": approvals of %d" % c)
        accept(mon, pair(0, 1), N, s * (s - 1) / m / (m - 1), what + ": joint approvals")
    elif id_ == "Resampling":
        p, phi, k = kw["p"], kw["phi"], int(kw["p"] * m)
        q = [(1 - phi) + phi * p if c < k else phi * p for c in range(m)]
        for c in range(m):
            accept(mon, cnt[c], N, q[c], what + ": approvals of %d" % c)
        accept(mon, pair(0, 1), N, q[0] * q[1], what + ": joint approvals")
    elif id_ == "Disjoint Resampling":
        p, phi, g, k = kw["p"], kw["phi"], kw["num_groups"], int(kw["p"] * m)
        tot = N * m
        q = g * k / m * ((1 - phi) / g + phi * p) + (1 - g * k / m) * phi * p
        mon.count("assertions")
        var = N * m * m / 4
        if abs(sum(cnt) - tot * q) > 7 * math.sqrt(var):
            mon.violate("%s: %d approvals in total, expected about %.0f" % (what, sum(cnt), tot * q), "frequency")
    elif id_ == "Truncated Mallows":
        s, phi = kw["setsize"], kw["dispersion"]
        if m > 5:
            mon.count("assertions")
            for a, q in zip(sorted(cnt, reverse=True), sorted(mallows_inclusion(m, s, phi), reverse=True)):
                if abs(a - N * q) > 8 * math.sqrt(N * q * (1 - q)) + 8 + 0.02 * N:
                    mon.violate("%s: approvals %s do not match" % (what, sorted(cnt, reverse=True)), "frequency")
            return
        # the distribution over rankings around some reference ranking: probability that the
        # truncation is the most likely set, by exact enumeration
        import itertools
        wts = Counter()
        for perm in itertools.permutations(range(m)):
            inv = sum(perm[i] > perm[j] for i in range(m) for j in range(i + 1, m))
            wts[frozenset(perm[:s])] += phi ** inv
        tot = sum(wts.values())
        want = sorted((x / tot for x in wts.values()), reverse=True)
        got = sorted(Counter(bs).values(), reverse=True)
        got += [0] * (len(want) - len(got))
        mon.count("assertions")
        for a, q in zip(got, want):
            if abs(a - N * q) > 8 * math.sqrt(N * q * (1 - q)) + 8 + 0.02 * N:
                mon.violate("%s: set frequencies %s, expected about %s" % (what, got[:8], [round(N * x) for x in want[:8]]), "frequency")
    elif id_ == "Noise":
        import itertools
        k = int(kw["p"] * m)
        cen = frozenset(range(k))
        phi = kw["phi"]
        def dst(x):
            i = len(x & cen)
            if kw["distance"] == "hamming":
                return len(x ^ cen)
            if kw["distance"] == "jaccard":
                return 1 - i / len(x | cen)
            if kw["distance"] == "zelinka":
                return max(len(x), len(cen)) - i
            return 1 - i / max(len(x), len(cen))
        if k == 0:
            return
        wts = {frozenset(x): phi ** dst(frozenset(x)) for r in range(m + 1) for x in itertools.combinations(range(m), r)}
        tot = sum(wts.values())
        c = Counter(bs)
        for x, w in wts.items():
            accept(mon, c[x], N, w / tot, what + ": ballots %s" % sorted(x))


def urn_freq(mon, rng, id_, m, kw, f, what):
    """two-voter urns: how often does the second voter repeat the first ballot; marginal frequencies"""
    N, a = 600, kw["replace"]
    same, first, second = 0, Counter(), Counter()
    for _ in range(N):
        x, y = valid(mon, f(2, m, **kw), 2, m, what)
        same += x == y
        for c in x:
            first[c] += 1
        for c in y:
            second[c] += 1
    mon.seen((what, N, same))
    if "setsize" in kw:
        s = kw["setsize"]
        q, base = s / m, 1 / math.comb(m, s)
    else:
        q = kw["p"]
        base = (q * q + (1 - q) ** 2) ** m
    rep = a / (1 + a)
    accept(mon, same, N, rep + (1 - rep) * base, what + ": second ballot equals the first")
    for c in range(m):
        accept(mon, first[c], N, q, what + ": approvals of %d by the first voter" % c)
        accept(mon, second[c], N, q, what + ": approvals of %d by the second voter" % c)


def do_bad(mon, rng):
    n, m = rng.randint(1, 4), rng.randint(1, 5)
    r = rng.randrange(6)
    def rejects(f, exc, what, name):
        try:
            x = f()
        except exc:
            mon.count(name)
        else:
            mon.violate("%s: accepted (%r)" % (what, x), "accepted")
    if r == 0:
        bad = rng.choice(["ic", "IC ", "Impartial Culture", "Mallows", "", "Euclidean", None, "noise"])
        rejects(lambda: G.random_noise_model_profile(n, m, p=0.5, phi=0.5, distance=bad), ValueError, "distance %r" % (bad,), "unknown-distance")
        rejects(lambda: G.random_profile(n, m, {"id": bad, "p": 0.5}), ValueError, "distribution id %r" % (bad,), "unknown-id")
        mon.seen(("id", bad, n, m))
    elif r == 1:
        rejects(lambda: G.random_profile(n, m, {"p": 0.5}), KeyError, "specification without id", "missing-id")
        mon.seen(("noid", n, m))
    elif r == 2:
        id_, kw = rng.choice([("IC", {"p": 1.5}), ("IC", {"p": -0.1}), ("IC fixed-size", {"setsize": m + 1}), ("IC fixed-size", {"setsize": -1}),
                              ("Urn fixed-size", {"setsize": m + 1, "replace": 1}), ("Truncated Urn", {"setsize": m + 1, "replace": 1}),
                              ("Truncated Mallows", {"setsize": m + 1, "dispersion": 0.5}), ("Truncated Mallows", {"setsize": 1, "dispersion": 1.5}),
                              ("Resampling", {"p": 0.5, "phi": 1.5}), ("Resampling", {"p": -0.5, "phi": 0.5}), ("Noise", {"p": 0.5, "phi": 0.5, "distance": "euclid"}),
                              ("Noise", {"p": 2, "phi": 0.5}), ("Urn", {"p": 0.5, "replace": -1}), ("Disjoint Resampling", {"p": 0.9, "phi": 0.5, "num_groups": 3}),
                              ("IC", {"q": 0.5}), ("Resampling", {"p": 0.5})])
        rejects(lambda: G.random_profile(n, m, dict(kw, id=id_)), (ValueError, TypeError), "%s %r" % (id_, kw), "bad-params")
        mon.seen((id_, repr(kw), n, m))
    elif r == 3:
        d = G.PointProbabilityDistribution("2d_square")
        kw = dict(voter_prob_distribution=d, candidate_prob_distribution=d)
        f = rng.choice([lambda: G.random_euclidean_threshold_profile(n, m, threshold=0.5, **kw),
                        lambda: G.random_euclidean_fixed_size_profile(n, m, setsize=m + 1, **kw),
                        lambda: G.random_euclidean_fixed_size_profile(n, m, setsize=1, voter_prob_distribution=None, voter_points=[[0, 0]] * (n + 1), candidate_prob_distribution=d),
                        lambda: G.random_euclidean_threshold_profile(n, m, threshold=2, voter_prob_distribution=d, candidate_prob_distribution=None, candidate_points=[[0, 0]] * (m + 1))])
        rejects(f, (ValueError, TypeError), "invalid Euclidean parameters", "bad-params")
        mon.seen(("euc", n, m, mon.counts.get("bad-params", 0) if hasattr(mon, "counts") else 0))
    elif r == 4:
        bad = rng.choice([("2d_square", [0]), ("1d_interval", [0, 1]), ("square", 0), ("3d_cube", [1, 2])])
        rejects(lambda: G.PointProbabilityDistribution(bad[0], center_point=bad[1]), ValueError, "point distribution %r" % (bad,), "bad-distribution")
        rejects(lambda: G.random_point(G.PointProbabilityDistribution("2d_hexagon")), ValueError, "point distribution 2d_hexagon", "bad-distribution")
        rejects(lambda: G.random_point(G.PointProbabilityDistribution("3d_sphere")), ValueError, "point distribution 3d_sphere", "bad-distribution")
        mon.seen(("dist", bad[0]))
    else:
        # successive calls use fresh randomness
        id_ = rng.choice(["IC", "IC fixed-size", "Resampling", "Noise"])
        kw = {"IC": {}, "IC fixed-size": {"setsize": 20}, "Resampling": {"p": 0.5, "phi": 1}, "Noise": {"p": 0.5, "phi": 0.9}}[id_]
        ps = [tuple(map(tuple, map(sorted, valid(mon, call(rng, id_, 10, 40, kw, mon), 10, 40, id_)))) for _ in range(3)]
        if len(set(ps)) < 3 or len(set(ps[0])) < 2:
            mon.violate("%s %r: repeated profiles or ballots in successive calls" % (id_, kw), "randomness")
        mon.count("fresh-randomness")
        mon.seen((id_, ps[0]))


from collections import Counter


def run_case(case, mon):
    rng = random.Random(case["s"])
    reseed(case["s"])
    try:
        np.random.default_rng = _seeded
        {"shape": lambda: do_shape(mon, rng, case["id"]), "freq": lambda: do_freq(mon, rng, case["id"]),
         "points": lambda: do_points(mon, rng), "bad": lambda: do_bad(mon, rng)}[case["kind"]]()
    finally:
        np.random.default_rng = _real_rng
