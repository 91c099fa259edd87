import os
from collections import Counter
from mon.common import *
from mon import gen
from abcvoting import fileio

ID = "C21"
RULE = ("PrefLib files composed by the harness (soc, soi, toc, toi, cat; ties, short and empty rankings, shifted candidate numbers, shuffled "
        "headers, spaces, large multiplicities) read with every kind of truncation parameter and compared with the ranking they encode; random "
        "integer-weight profiles written as .cat and read back; directories of files; invalid parameters and files; non-trivial: distinct (file, parameters)")
ASSUMPTIONS = ["every ranking occurs on one line of a file (as the PrefLib format requires)",
               "candidate names survive if they have no leading or trailing blanks and no line breaks",
               "profiles with fractional weights are outside the domain of the .cat writer"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 8000, "thorough": 80000}
REQUIRED = ["read:soc", "read:soi", "read:toc", "read:toi", "read:cat", "top_ranks", "setsize", "default", "weights", "no-weights", "short-ranking",
            "ties", "ties-beyond-setsize", "ranking-too-short-for-setsize", "empty-ballot", "merging-truncations", "written", "write:weighted", "write:names",
            "write:float-int", "write:fraction-int", "write:duplicates", "write:many-ballots", "directory", "directory:filtered", "rejected", "malformed", "shifted", "large-multiplicity", "empty-category"]


def gen_case(rng, idx, tier):
    return {"s": rng.randrange(1 << 60), "kind": ["read", "read", "read", "write", "write", "dir", "bad"][idx % 7]}


def path(name):
    return os.path.join(os.environ["MON_SCRATCH"], "p%d-%s" % (os.getpid(), name))


NAMES = ["a", "b", "Zoe", "x y", "name: with colon", "10", "1", "Caf\u00e9", "A, B", "{c}", "#hash", "\u4e2d", "quote\"d", "long name of a candidate", "d", "e", "f", "g", "h", "i", "j"] + ["cand %d" % i for i in range(60)]


def compose(rng, mon, ext):
    m = rng.randint(1, 7) if rng.random() < 0.85 else rng.choice([rng.randint(8, 14), rng.randint(8, 14), rng.randint(20, 60)])
    shift = 0 if rng.random() < 0.7 else rng.randint(1, 3)
    ids = [i + 1 + shift for i in range(m)]
    if shift:
        mon.count("shifted")
    if rng.random() < 0.15:
        ids = sorted(rng.sample(range(1, 3 * m + 1), m))
    names = rng.sample(NAMES, m)
    ballots = {}
    for _ in range(rng.randint(1, 8) if rng.random() < 0.95 else rng.randint(30, 90)):
        perm = rng.sample(ids, m)
        if rng.random() < 0.4 and ballots:          # vary an earlier ballot: same set on top, other structure
            perm = [c for g in rng.choice(list(ballots)) for c in g]
            perm += [c for c in ids if c not in perm]
        if ext in ("soi", "toi") and rng.random() < 0.6:
            perm = perm[:rng.randint(0 if rng.random() < 0.2 else 1, m)]
        if ext in ("soc", "soi"):
            order = tuple((c,) for c in perm)
        elif ext in ("toc", "toi"):
            order, i = [], 0
            while i < len(perm):
                s = rng.choice([1, 1, 1, 2, 3, 4])
                order.append(tuple(perm[i:i + s]))
                i += s
            order = tuple(order)
        else:
            ncat = rng.choice([1, 2, 2, 3, 4])
            order = [[] for _ in range(ncat)]
            for c in perm:
                if rng.random() < 0.85:
                    order[rng.randrange(ncat)].append(c)
            order = tuple(tuple(g) for g in order)
            if not any(order):
                continue
        if not order and (ext != "soi" or rng.random() < 0.7):
            continue
        r = rng.random()
        ballots[order] = 1 if r < 0.4 else rng.randint(2, 6) if r < 0.95 else rng.choice([rng.randint(100, 400), rng.randint(100, 400), 1000, 4321])
    if not ballots:
        ballots[((ids[0],),)] = 1
    lines = ["# FILE NAME: x." + ext, "# TITLE: t", "# DESCRIPTION: some: text", "# DATA TYPE: " + ext, "# MODIFICATION TYPE: original",
             "# RELATES TO:", "# RELATED FILES:", "# PUBLICATION DATE: 2020-01-01", "# MODIFICATION DATE:"]
    lines += ["# NUMBER ALTERNATIVES: %d" % m, "# NUMBER VOTERS: %d" % sum(ballots.values()),
              ("# NUMBER UNIQUE ORDERS: %d" if ext != "cat" else "# NUMBER UNIQUE PREFERENCES: %d") % len(ballots)]
    if ext == "cat":
        n = max(len(b) for b in ballots)
        lines.append("# NUMBER CATEGORIES: %d" % n)
        lines += ["# CATEGORY NAME %d: c%d" % (i + 1, i) for i in range(n)]
    lines += ["# ALTERNATIVE NAME %d: %s" % (i, nm) for i, nm in zip(ids, names)]
    sep = rng.choice([",", ", "])
    for b, n in ballots.items():
        gs = []
        for g in b:
            gs.append(str(g[0]) if len(g) == 1 else "{" + sep.join(map(str, g)) + "}")
        lines.append("%d:%s%s" % (n, rng.choice(["", " "]), sep.join(gs)))
    return m, ids, names, ballots, "\n".join(lines) + ("\n" if rng.random() < 0.7 else "")


def expected(order, m, idx, top, size, mon):
    if size:
        out = set()
        for g in order:
            if len(out) >= size:
                break
            out |= {idx[c] for c in g}
        if len(out) > size:
            mon.count("ties-beyond-setsize")
        if 0 < len(out) < size:
            mon.count("ranking-too-short-for-setsize")
            out = set(range(m))
        return frozenset(out)
    return frozenset(idx[c] for g in order[:top] for c in g)


def read(mon, rng, ext=None, keep=None):
    ext = ext or rng.choice(["soc", "soi", "toc", "toi", "cat"])
    m, ids, names, ballots, text = compose(rng, mon, ext)
    fn = keep or path("r." + ext)
    open(fn, "w", encoding="utf-8").write(text)
    return fn, ext, m, ids, names, ballots, text


def params(rng, m, mon):
    r = rng.random()
    if r < 0.2:
        mon.count("default")
        return {}
    if r < 0.6:
        mon.count("top_ranks")
        return {"top_ranks": rng.randint(1, m + 1)}
    mon.count("setsize")
    return {"setsize": rng.randint(1, m + 1)}


def compare(mon, prof, m, ids, names, ballots, kw, weights, what):
    idx = {c: i for i, c in enumerate(ids)}
    want = [(expected(b, m, idx, kw.get("top_ranks") or 1, kw.get("setsize"), mon), n) for b, n in ballots.items()]
    if len({b for b, _ in want}) < len(want):
        mon.count("merging-truncations")
    if any(not b for b, _ in want):
        mon.count("empty-ballot")
    mon.count("assertions")
    if prof.num_cand != m or list(prof.cand_names) != names:
        mon.violate("%s: candidates read as %d %r" % (what, prof.num_cand, prof.cand_names), "names")
    got = Counter()
    for v in prof:
        got[frozenset(v.approved)] += v.weight
    exp = Counter()
    for b, n in want:
        exp[b] += n
    if got != exp:
        mon.violate("%s %r: approval sets %s, the rankings give %s" % (what, kw, [(sorted(b), n) for b, n in got.items()],
                                                                       [(sorted(b), n) for b, n in exp.items()]), "ballots")
    nv = len(want) if weights else sum(n for _, n in want)
    if not weights and any(v.weight != 1 for v in prof):
        mon.violate("%s %r: weights %r although individual voters were requested" % (what, kw, [v.weight for v in prof][:10]), "weights")
    if len(prof) != nv:
        mon.violate("%s %r use_weights=%s: %d voters, expected %d" % (what, kw, weights, len(prof), nv), "number-of-voters")
    if weights and Counter((frozenset(v.approved), v.weight) for v in prof) != Counter(want):
        mon.violate("%s %r: weighted voters %r" % (what, kw, [(sorted(v.approved), v.weight) for v in prof]), "weights")


def do_read(mon, rng):
    fn, ext, m, ids, names, ballots, text = read(mon, rng)
    mon.count("read:" + ext)
    if any(sum(map(len, b)) < m for b in ballots):
        mon.count("short-ranking")
    if any(len(g) > 1 for b in ballots for g in b):
        mon.count("ties")
    if any(len(g) == 0 for b in ballots for g in b):
        mon.count("empty-category")
    if any(n > 50 for n in ballots.values()):
        mon.count("large-multiplicity")
    for _ in range(3):
        kw = params(rng, m, mon)
        w = rng.random() < 0.5
        prof = fileio.read_preflib_file(fn, use_weights=w, **kw) if w or rng.random() < 0.5 else fileio.read_preflib_file(fn, **kw)
        mon.count("weights" if w else "no-weights")
        mon.seen((text, repr(kw), w))
        compare(mon, prof, m, ids, names, ballots, kw, w, "%s file with %s" % (ext, list(ballots.items())))


def do_write(mon, rng):
    large = rng.random() < 0.1
    inst = gen.inst(rng, nmin=40 if large else 1, nmax=150 if large else 10, mmin=8 if large else 1, mmax=60 if large else 14, names=False, wkinds=["unit"])
    m = inst["m"]
    names = rng.sample(NAMES, m) if rng.random() < 0.5 else None
    p = Profile(m, cand_names=names) if names else Profile(m)
    kind = rng.choice(["unit", "int", "int", "float", "frac"])
    ws = []
    for b in inst["votes"]:
        if rng.random() < 0.3 and ws:
            b = rng.choice([inst["votes"][0], list(ws[-1][0]), list(rng.choice(ws)[0])])
            b = rng.sample(b, len(b))
        w = 1 if kind == "unit" else rng.randint(1, 6) if rng.random() < 0.97 else rng.choice([17, 100, 999, 2500])
        ws.append((frozenset(b), w))
        p.add_voter(Voter(b, weight=float(w) if kind == "float" and rng.random() < 0.7 else F(w) if kind == "frac" else w))
    if names:
        mon.count("write:names")
    if kind == "float":
        mon.count("write:float-int")
    if kind == "frac":
        mon.count("write:fraction-int")
    if any(w > 1 for _, w in ws):
        mon.count("write:weighted")
    if len({b for b, _ in ws}) < len(ws):
        mon.count("write:duplicates")
    if len({b for b, _ in ws}) > 30:
        mon.count("write:many-ballots")
    before = snapshot(p)
    fn = path("w.cat")
    what = "profile m=%d %s names=%r" % (m, [(sorted(b), w) for b, w in ws], names)
    fileio.write_profile_to_preflib_cat_file(fn, p)
    if snapshot(p) != before:
        mon.violate("%s changed by writing" % what, "purity")
    mon.count("written")
    mon.seen((what, kind))
    exp = Counter()
    for b, w in ws:
        exp[b] += w
    for use in (False, True):
        for kw in ({}, {"top_ranks": 1}, {"top_ranks": 2}):
            q = fileio.read_preflib_file(fn, use_weights=use, **kw)
            got = Counter()
            for v in q:
                got[frozenset(v.approved)] += v.weight
            e = exp if kw.get("top_ranks") != 2 else Counter({frozenset(range(m)): sum(exp.values())})
            mon.count("assertions")
            if got != e or q.num_cand != m or list(q.cand_names) != (names or [str(i) for i in range(m)]):
                mon.violate("%s: read back (use_weights=%s, %r) as %s with names %r" % (what, use, kw, [(sorted(b), w) for b, w in got.items()], q.cand_names), "round-trip")
            if not use and len(q) != sum(exp.values()):
                mon.violate("%s: %d voters read" % (what, len(q)), "round-trip")
    lines = sum(1 for x in open(fn, encoding="utf-8").read().split("\n") if x and not x.startswith("#"))
    head = dict(x[2:].split(": ", 1) for x in open(fn, encoding="utf-8").read().split("\n") if x.startswith("# ") and ": " in x)
    if head.get("NUMBER ALTERNATIVES") != str(m) or head.get("NUMBER VOTERS") != str(sum(exp.values())) \
            or (head.get("DATA TYPE"), head.get("NUMBER CATEGORIES"), head.get("NUMBER UNIQUE PREFERENCES")) != ("cat", "2", str(lines)):
        mon.violate("%s: file header %r" % (what, head), "header")


def do_dir(mon, rng):
    d = path("dir%d" % rng.randrange(10 ** 9))
    os.mkdir(d)
    want = {}
    other = []
    for i in range(rng.randint(1, 4)):
        ext = rng.choice(["soc", "soi", "toc", "toi", "cat"])
        name = "%s%d.%s" % (rng.choice(["a", "B", "z.x"]), i, ext)
        want[name] = read(mon, rng, ext, os.path.join(d, name))
    for i in range(rng.randint(0, 3)):
        name = rng.choice(["notes%d.txt", "soc%d", "x%d.soc.bak", "data%d.abc.yaml"]) % i
        open(os.path.join(d, name), "w").write("junk")
        other.append(name)
        mon.count("directory:filtered")
    os.mkdir(os.path.join(d, "sub.soc"))
    open(os.path.join(d, "sub.soc", "inner.soc"), "w").write("junk")
    kw = params(rng, 4, mon)
    mon.seen((d, repr(kw), tuple(x[6] for x in want.values())))
    got = fileio.read_preflib_files_from_dir(d, **kw)
    if set(got) != set(want):
        mon.violate("directory with %s and %s: read %s" % (sorted(want), other, sorted(got)), "dir-files")
    for name, (fn, ext, m, ids, names, ballots, text) in want.items():
        compare(mon, got[name], m, ids, names, ballots, kw, False, "%s in a directory, %s" % (name, list(ballots.items())))
    mon.count("directory")
    allf = sorted(list(want) + other)
    if fileio.get_file_names(d) != allf:
        mon.violate("get_file_names: %s, directory has %s" % (fileio.get_file_names(d), allf), "file-names")
    for exts in (["soc"], [".soi", ".cat"], [".txt", "yaml"], ["nothing"]):
        w = sorted(f for f in allf if f.endswith(tuple(exts)))
        if fileio.get_file_names(d, filename_extensions=exts) != w:
            mon.violate("get_file_names(%s): %s, expected %s" % (exts, fileio.get_file_names(d, filename_extensions=exts), w), "file-names")
    for dirpath in (os.path.join(d, "nowhere"),):
        try:
            fileio.get_file_names(dirpath)
        except FileNotFoundError:
            pass
        else:
            mon.violate("get_file_names of a missing directory succeeded", "file-names")
    for dp, _, fs in os.walk(d, topdown=False):
        for f in fs:
            os.remove(os.path.join(dp, f))
        os.rmdir(dp)


def do_bad(mon, rng):
    fn, ext, m, ids, names, ballots, text = read(mon, rng)
    kw = rng.choice([{"top_ranks": 1, "setsize": 1}, {"top_ranks": 0}, {"top_ranks": -1}, {"setsize": 0}, {"setsize": -2}, {"top_ranks": 3, "setsize": 2}])
    mon.seen((text, repr(kw)))
    try:
        fileio.read_preflib_file(fn, **kw)
    except ValueError:
        mon.count("rejected")
    else:
        mon.violate("read_preflib_file accepted %r" % kw, "params-accepted")
    bad = rng.choice(["garbage", "no-colon", "letters", "count", "missing"])
    body = [x for x in text.split("\n") if x]
    if bad == "garbage":
        body = ["%%% nothing"]
    elif bad == "no-colon":
        body[-1] = body[-1].replace(":", ";")
    elif bad == "letters":
        body[-1] = "one: 1"
    elif bad == "count":
        body[-1] = "1.5: %d" % ids[0]
    fn2 = path("bad." + ext)
    if bad == "missing":
        fn2 = path("does-not-exist." + ext)
    else:
        open(fn2, "w", encoding="utf-8").write("\n".join(body) + "\n")
    try:
        p = fileio.read_preflib_file(fn2)
    except fileio.MalformattedFileException:
        mon.count("malformed")
    else:
        mon.violate("file %r read as %s" % ("\n".join(body), [(sorted(v.approved), v.weight) for v in p]), "malformed-accepted")


def run_case(case, mon):
    rng = random.Random(case["s"])
    {"read": do_read, "write": do_write, "dir": do_dir, "bad": do_bad}[case["kind"]](mon, rng)
