import re
from mon.common import *
from mon import gen, oracles as o
from mon.checks.c24 import observed

ID = "C26"
RULE = ("every rule, algorithm and mode, and every axiom checker, run with detailed output on a random instance (ties frequent, weights, candidate "
        "names); the messages are recorded, parsed back into a log (steps, scores, ties, loads, budgets, prices, supports, assignments, witnesses) and "
        "the log is replayed against exact definitions and the returned committees; non-trivial: distinct (rule or axiom, instance) with a parsed log")
ASSUMPTIONS = ["numbers printed as floats are compared with tolerance 1e-6, exact numbers exactly",
               "for solver-based rules other than maximin support only optimal values are reported, and those are checked",
               "starting loads of Phase 2 of Equal Shares are only meaningful up to a constant; they are checked as minus the remaining budget per weight"]
PLAN = {"quick": 16000, "thorough": 120000}
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability"]
REQUIRED = (["log:" + r for r in ALL_RULES] + ["witness:" + p for p in PROPS if p != "priceability"] +
            ["tie-logged", "steps", "loads", "phase1", "phase2", "phase2-unapproved", "increment", "too-few", "suboptimal-assignment", "starred", "payments",
             "names", "irresolute", "support-values", "certain", "possible", "weighted-witness", "infinite-load"])
NUM = r"-?(?:inf|\d+(?:\.\d+)?(?:e-?\d+)?(?:/\d+)?)"
SET = r"\{([^{}]*)\}"
INF = float("inf")


def gen_case(rng, idx, tier):
    if idx % 3 == 2:
        inst = gen.inst(rng, nmax=7, mmax=6, kmax=5, names=False)
        return {"kind": "check", "prop": PROPS[(idx // 3) % len(PROPS)], "inst": inst, "s": rng.randrange(1 << 60)}
    j = idx - idx // 3
    rule = (ALL_RULES + ["seqgeom1.5", "revseqgeom2", "geom1.5", "equal-shares", "equal-shares", "seqphragmen", "greedy-monroe", "greedy-monroe"])[j % (len(ALL_RULES) + 8)]
    inst = rule_inst(rng, rule, nmax=5 if rule == "leximaxphragmen" else 8, mmax=5 if rule == "leximaxphragmen" else 6, kmax=5)
    if rule in ("revseqpav", "seqpav", "seqphragmen", "equal-shares", "av") and rng.random() < 0.15:
        inst = gen.spread(rng, gen.inst(rng, nmax=5, mmax=5, kmax=4, names=False))
    inst["names"] = None
    if rng.random() < 0.5:
        ids = list(range(inst["m"]))
        rng.shuffle(ids)
        inst["names"] = ["q%d" % i for i in ids]
    return {"kind": "rule", "rule": rule, "inst": inst, "s": rng.randrange(1 << 60)}


class Log:
    """the recorded text with a cursor; a part that cannot be found is a missing or unintelligible explanation"""

    def __init__(self, mon, text, names, desc, mech):
        self.mon, self.t, self.pos, self.names, self.desc, self.mech = mon, text, 0, names, desc, mech
        self.named = set()
        self.index = {n: i for i, n in enumerate(names)}

    def fail(self, msg, what=""):
        self.mon.violate("%s: %s\n--- log:\n%s" % (self.desc, msg, self.t), self.mech + what)

    def known(self, mech, msg):
        """a deviation with a name of its own (see known_findings.json); the rest of the log is still checked"""
        if mech not in self.named:
            self.named.add(mech)
            self.mon.violate("%s: %s\n--- log:\n%s" % (self.desc, msg, self.t), mech, stop=False)

    def find(self, rx, optional=False, within=None):
        rx = rx.replace("NUM", NUM).replace("SET", SET).replace(" ", r"\s+")
        m = re.compile(rx).search(self.t, self.pos, within if within is not None else len(self.t))
        if not m:
            if optional:
                return None
            self.fail("no message matching %r after position %d" % (rx, self.pos), ":missing")
        self.pos = m.end()
        return m

    def cand(self, name):
        name = name.strip()
        if name not in self.index:
            self.fail("%r is no candidate" % name, ":name")
        return self.index[name]

    def cset(self, s):
        s = s.strip()
        return [self.cand(x) for x in s.split(",")] if s else []

    def num(self, s, want, what):
        self.mon.count("assertions")
        s = s.strip()
        if want == INF or "inf" in s:
            if not (want == INF and s == "inf"):
                self.fail("%s reported as %s, is %s" % (what, s, want), ":" + what.split()[0])
            return
        got = F(s)
        if "." in s or "e" in s:
            ok = abs(got - want) <= F(1, 10 ** 6) * max(1, abs(want))
        else:
            ok = got == want
        if not ok:
            self.fail("%s reported as %s, is %s" % (what, s, want), ":" + what.split()[0])

    def vec(self, s, want, what):
        parts = [x for x in s.split(",") if x.strip()]
        self.same(len(parts), len(want), what + " length")
        for i, (a, b) in enumerate(zip(parts, want)):
            self.num(a, b, "%s [%d]" % (what, i))

    def same(self, got, want, what):
        self.mon.count("assertions")
        if got != want:
            self.fail("%s reported as %r, is %r" % (what, got, want), ":" + what.split()[0])


def close(a, b):
    return a == b or (a != INF and b != INF and abs(a - b) < 1e-6 * max(1, abs(b)))


def ties(L, within, chosen, best, values, verb, tied_rx, without_chosen=None):
    """the tie report of one step: `values` maps every candidate considered to its exact value"""
    exp = sorted(c for c in values if values[c] == best)
    near = sorted(c for c in values if close(values[c], best))
    L.same(chosen in near, True, "chosen candidate %s optimal (values %s)" % (L.names[chosen], {L.names[c]: str(v) for c, v in values.items()}))
    m = L.find(r"tie broken %s (\S+?),\s+candidates SET are tied" % verb, optional=True, within=within)
    if m:
        L.mon.count("tie-logged")
        L.same(L.cand(m.group(1)), chosen, "candidate favoured by the tie")
        got = sorted(L.cset(m.group(2)))
        if without_chosen and len(exp) > 2 and got == [c for c in exp if c != chosen]:
            L.known(without_chosen, "the tied candidates are %s, reported are %s" % ([L.names[c] for c in exp], [L.names[c] for c in got]))
        elif got != exp:
            L.same(got, near, "tied candidates")
        m = L.find(tied_rx, within=within)
        L.num(m.group(1), best, "value shared by the tied candidates")
    elif without_chosen and len(exp) == 2:
        L.known(without_chosen, "tie between %s is not reported" % [L.names[c] for c in exp])
    elif len(exp) > 1:
        L.fail("tie between %s is not reported" % [L.names[c] for c in exp], ":tie")


def step_end(L, rx):
    """position where the next step (or the list of committees) starts"""
    m = re.compile(rx).search(L.t, L.pos)
    e = re.compile(r"\d+ winning committees?:").search(L.t, L.pos)
    cands = [x.start() for x in (m, e) if x]
    return min(cands) if cands else len(L.t)


def log_seq(L, rule, res, votes, w, m, k):
    sid = rule[3:]
    g = L.find(r"starting with the empty committee \(score = (NUM)\)")
    L.num(g.group(1), F(0), "score of the empty committee")
    com = []
    for i in range(k):
        g = L.find(r"adding candidate number (\d+): (\S+)")
        L.same(int(g.group(1)), i + 1, "step number")
        c = L.cand(g.group(2))
        end = step_end(L, "adding candidate number")
        before = o.thiele_score(sid, votes, w, com)
        vals = {x: o.thiele_score(sid, votes, w, com + [x]) - before for x in range(m) if x not in com}
        best = max(vals.values())
        g = L.find(r"score increases by (NUM) to a total of (NUM)", within=end)
        L.num(g.group(1), vals.get(c, None) if c in vals else best, "increase of the score by %s" % L.names[c])
        com.append(c)
        L.num(g.group(2), o.thiele_score(sid, votes, w, com), "total score of the partial committee %s" % com)
        ties(L, end, c, best, vals, "in favor of", r"\(all would increase the score by the same amount (NUM)\)")
        L.mon.count("steps")
    L.same([frozenset(com)], res, "committee at the end of the steps")


def log_seq_end(L, sid, res, votes, w):
    L.find(re.escape(sid.upper()) + r"-score of winning committee\(s\):")
    shown = []
    while True:
        g = L.find(r"SET: (NUM)", optional=True)
        if not g:
            break
        c = frozenset(L.cset(g.group(1)))
        shown.append(c)
        L.num(g.group(2), o.thiele_score(sid, votes, w, c), "score of winning committee %s" % sorted(c))
    L.same(sorted(map(sorted, shown)), sorted(map(sorted, res)), "winning committees with scores")


def log_revseq(L, rule, res, votes, w, m, k):
    sid = rule[6:]
    com = list(range(m))
    g = L.find(r"full committee \((\d+) candidates\) has a total score of (NUM)")
    L.same(int(g.group(1)), m, "size of the full committee")
    L.num(g.group(2), o.thiele_score(sid, votes, w, com), "score of the full committee")
    for i in range(m - k):
        g = L.find(r"removing candidate number (\d+): (\S+)")
        L.same(int(g.group(1)), i + 1, "step number")
        c = L.cand(g.group(2))
        end = step_end(L, "removing candidate number")
        before = o.thiele_score(sid, votes, w, com)
        vals = {x: before - o.thiele_score(sid, votes, w, [y for y in com if y != x]) for x in com}
        best = min(vals.values())
        L.same(c in vals, True, "removed candidate %s in the committee" % c)
        com.remove(c)
        g = L.find(r"score decreases by (NUM) to a total of (NUM)", within=end)
        L.num(g.group(1), vals[c], "decrease of the score by %s" % L.names[c])
        L.num(g.group(2), o.thiele_score(sid, votes, w, com), "total score of the partial committee")
        ties(L, end, c, best, vals, "to the disadvantage of", r"\(all would decrease the score by the same amount (NUM)\)",
             without_chosen="revseq-ties-without-removed")
        L.mon.count("steps")
    L.same([frozenset(com)], res, "committee at the end of the steps")


def log_loads(L, com, load, rounds, start, votes, w, m):
    """`rounds` seq-Phragmen steps; com (list) and load (exact) are updated"""
    n = len(votes)
    wc = [sum((w[v] for v in range(n) if c in votes[v]), F(0)) for c in range(m)]
    for i in range(rounds):
        g = L.find(r"adding candidate number (\d+): (\S+)")
        L.same(int(g.group(1)), len(com) + 1, "step number")
        c = L.cand(g.group(2))
        end = step_end(L, "adding candidate number")
        vals = {x: (INF if wc[x] == 0 else (1 + sum((w[v] * load[v] for v in range(n) if x in votes[v]), F(0))) / wc[x]) for x in range(m) if x not in com}
        best = min(vals.values())
        L.same(c in vals, True, "chosen candidate %s new" % c)
        if vals[c] != INF:
            for v in range(n):
                if c in votes[v]:
                    load[v] = vals[c]
        else:
            L.mon.count("infinite-load")
        com.append(c)
        g = L.find(r"maximum load increased to (NUM)", within=end)
        L.num(g.group(1), max(load), "maximum load")
        g = L.find(r"load distribution:\s*\(([^()]*)\)", within=end)
        L.vec(g.group(1), load, "load distribution")
        L.mon.count("loads")
        exp = sorted(x for x in vals if vals[x] == best)
        near = sorted(x for x in vals if close(vals[x], best))
        L.same(c in near, True, "chosen candidate %s of minimum load" % c)
        g = L.find(r"tie broken in favor of (\S+?),\s+candidates SET are tied", optional=True, within=end)
        if g:
            L.mon.count("tie-logged")
            L.same(L.cand(g.group(1)), c, "candidate favoured by the tie")
            got = sorted(L.cset(g.group(2)))
            if got != exp:
                L.same(got, near, "tied candidates")
            if best != INF:
                g = L.find(r"new maximum load (?:would be|=) (NUM)\)", within=end)
                L.num(g.group(1), best, "maximum load for the tied candidates")
        elif len(exp) > 1:
            L.fail("tie between %s is not reported" % exp, ":tie")
        L.mon.count("steps")


def log_load_pairs(L, res, votes, w, m, k, exact_loads=None):
    n = len(votes)
    L.find(r"corresponding load distributions?:")
    shown = []
    while True:
        g = L.find(r"SET: \(([^()]*)\)", optional=True)
        if not g:
            break
        c = frozenset(L.cset(g.group(1)))
        shown.append(c)
        loads = [F(x.strip()) for x in g.group(2).split(",") if x.strip()]
        L.same(len(loads), n, "number of loads of %s" % sorted(c))
        supported = sum(1 for x in c if any(x in b for b in votes))
        tot = sum((a * b for a, b in zip(loads, w)), F(0))
        L.same(close(tot, F(supported)), True, "total load %s equal to the seats of approved candidates %d," % (tot, supported))
        L.same(min(loads) >= 0, True, "loads non-negative,")
        if exact_loads is not None:
            L.same(any(all(close(a, b) for a, b in zip(loads, e)) for e in exact_loads.get(c, [])), True,
                   "load distribution %s of %s one of a tie-breaking order," % ([str(x) for x in loads], sorted(c)))
        L.mon.count("loads")
    L.same(sorted(map(sorted, shown)), sorted(map(sorted, res)), "committees with loads")


def all_end_states(start, step, rounds):
    level = {start}
    for _ in range(rounds):
        level = {s for st in level for _, s in step(st)}
        if len(level) > 600:
            return None
    return level


def log_mes(L, rule, alg, res, votes, w, m, k, resolute):
    n = len(votes)
    appr = frozenset().union(*votes)
    incr = "increment" in rule
    if incr:
        if len(appr) < k:
            L.find(r"There are fewer candidates approved by at least one voter than the desired committee size")
            L.mon.count("too-few")
            return
        L.find(r"Incrementing starting budget of voters to fill the committee")
        g = L.find(r"Successful for a \(virtual\) committee size of (\d+)")
        j = int(g.group(1))
        per = F(j) / sum(w)
        st = o.mes_first(m, k, votes, w, per)
        L.same([st[0]], res, "committee bought with virtual committee size %d" % j)
        L.same(j >= k, True, "virtual committee size at least the committee size,")
        L.mon.count("increment")
        return
    if not resolute:
        return
    L.find("Phase 1:")
    tot = sum(w)
    bud = [w[v] * k / tot for v in range(n)]
    g = L.find(r"starting budget:\s*\(([^()]*)\)")
    L.vec(g.group(1), bud, "starting budget")
    com = []
    p2 = re.compile("Phase 2").search(L.t)
    stop = p2.start() if p2 else len(L.t)
    while True:
        rho = {}
        for c in range(m):
            if c not in com:
                r = o.mes_rho(votes, w, bud, c)
                if r is not None:
                    rho[c] = r
        g = L.find(r"adding candidate number (\d+): (\S+)", optional=True, within=stop)
        if not g:
            break
        L.same(int(g.group(1)), len(com) + 1, "step number")
        c = L.cand(g.group(2))
        end = min(stop, step_end(L, "adding candidate number"))
        if c not in rho:
            L.fail("candidate %s bought, but supporters cannot afford it" % L.names[c], ":afford")
        q = rho[c]
        g = L.find(r"with maxmimum cost per voter q = (NUM)", within=end)
        L.num(g.group(1), q, "cost per voter")
        old = sum(bud)
        bud = [b - min(b, q * w[v]) if c in votes[v] else b for v, b in enumerate(bud)]
        assert old - sum(bud) == 1
        g = L.find(r"remaining budget:\s*\(([^()]*)\)", within=end)
        L.vec(g.group(1), bud, "remaining budget")
        ties(L, end, c, min(rho.values()), rho, "in favor of", r"\(all would impose a maximum cost of (NUM)\)")
        com.append(c)
        L.mon.count("phase1")
        L.mon.count("steps")
    near = [c for c in rho if sum(bud[v] for v in range(n) if c in votes[v]) > 1 + F(1, 10 ** 9)]
    L.same(len(com) == k or not (rho if alg != "float-fractions" else near), True, "end of Phase 1 (affordable: %s)" % sorted(rho))
    if rule in PARTIAL:
        L.same([frozenset(com)], res, "committee at the end of the steps")
        return
    if "av-completion" in rule:
        L.same(frozenset(com) <= res[0], True, "candidates bought elected,")
        return
    if len(com) < k:
        L.find(r"Phase 2 \(seq-Phragm.n\):")
        load = [-bud[v] / w[v] for v in range(n)]
        g = L.find(r"starting loads[^:]*:\s*\(([^()]*)\)")
        L.vec(g.group(1), load, "starting loads")
        if any(c not in appr for c in res[0]):
            L.mon.count("phase2-unapproved")
        log_loads(L, com, load, k - len(com), load, votes, w, m)
        L.mon.count("phase2")
    L.same([frozenset(com)], res, "committee at the end of the steps")


def log_separable(L, rule, res, votes, w, m, k, irr):
    s = o.sep_scores(rule, m, votes, w)
    L.find("Scores of candidates:")
    for _ in range(m):
        g = L.find(r"(\S+): (NUM)\n")
        c = L.cand(g.group(1))
        L.num(g.group(2), s[c], "score of %s" % L.names[c])
    g = L.find(r"Candidates are contained in winning committees\s+if their score is >= (NUM)")
    cut = sorted(s)[-k]
    L.num(g.group(1), cut, "cutoff")
    every = frozenset.intersection(*irr)
    some = frozenset.union(*irr) - every
    g = L.find(r"The following candidates are contained in\s+every winning committee:\n(.*)\n", optional=True)
    if g or every:
        L.same(sorted(L.cset(g.group(1))) if g else None, sorted(every) if every else None, "candidates contained in every winning committee")
        L.mon.count("certain")
    g = L.find(r"The following candidates are contained in\s+some of the winning committees:\n(.*)\n", optional=True)
    if g or some:
        L.same(sorted(L.cset(g.group(1))) if g else None, sorted(some) if some else None, "candidates contained in some winning committees")
        g = L.find(r"\((\d+) of those candidates are contained in every winning committee")
        L.same(int(g.group(1)), k - len(every), "number of further candidates in every winning committee")
        L.mon.count("possible")


def log_greedy_monroe(L, res, votes, m, k):
    n = len(votes)
    g = L.find(r"has a Monroe score of (\d+)\.")
    score = int(g.group(1))
    best = o.monroe_score(votes, res[0])
    g = L.find(r"Optimal Monroe score of the winning committee is (\d+)\.", optional=True)
    if g:
        L.same(int(g.group(1)), best, "optimal Monroe score")
        L.same(score < best, True, "assignment suboptimal,")
        L.mon.count("suboptimal-assignment")
    else:
        L.same(score, best, "Monroe score of the assignment (reported as optimal)")
    L.find(r"Assignment \(unsatisfatied voters marked with \*\):")
    seen = []
    cands = []
    sat = 0
    for _ in range(k):
        g = L.find(r"candidate (\S+) assigned to:([^\n]*)\n")
        c = L.cand(g.group(1))
        cands.append(c)
        vs = [x.strip() for x in g.group(2).split(",") if x.strip()]
        if n >= k or vs:
            L.same(len(vs) in (n // k, -(-n // k)), True, "district of %s of size %d balanced," % (c, len(vs)))
        for x in vs:
            v = int(x.rstrip("*"))
            seen.append(v)
            L.same(x.endswith("*"), c not in votes[v], "mark * of voter %d for candidate %s" % (v, c))
            if x.endswith("*"):
                L.mon.count("starred")
            else:
                sat += 1
    L.same(sorted(seen), list(range(n)), "voters assigned")
    L.same([frozenset(cands)], res, "candidates of the assignment")
    L.same(len(cands), len(set(cands)), "number of distinct candidates")
    L.same(sat, score, "number of satisfied voters (score shown %d)" % score)


def log_maximin(L, res, votes, w, m, k):
    L.find("starting with the empty committee")
    com = []
    for i in range(k):
        g = L.find(r"adding candidate number (\d+): (\S+)")
        L.same(int(g.group(1)), i + 1, "step number")
        c = L.cand(g.group(2))
        end = step_end(L, "adding candidate number")
        vals = {x: o.support_value(votes, w, frozenset(com) | {x}) for x in range(m) if x not in com}
        g = L.find(r"giving a committee with maximin support value (NUM)", within=end)
        L.same(c in vals, True, "chosen candidate %s new" % c)
        got = F(g.group(1))
        L.same(close(got, vals[c]), True, "maximin support value %s equal to %s," % (g.group(1), vals[c]))
        best = max(vals.values())
        exp = sorted(x for x in vals if close(vals[x], best))
        L.same(c in exp, True, "chosen candidate of highest support,")
        g = L.find(r"tie broken in favor of (\S+?),\s+candidates SET are tied", optional=True, within=end)
        if g or len(exp) > 1:
            if not g:
                L.fail("tie between %s is not reported" % exp, ":tie")
            L.mon.count("tie-logged")
            L.same(L.cand(g.group(1)), c, "candidate favoured by the tie")
            L.same(sorted(L.cset(g.group(2))), exp, "tied candidates")
            g = L.find(r"same maximin support value (NUM)\)", within=end)
            L.same(close(F(g.group(1)), best), True, "support value shared by the tied candidates %s equal to %s," % (g.group(1), best))
        com.append(c)
        L.mon.count("steps")
        L.mon.count("support-values")
    L.same([frozenset(com)], res, "committee at the end of the steps")


def do_rule(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    rng = random.Random(case["s"])
    R = abcrules.Rule(rule)
    alg = rng.choice([a for a in algs(rule) if applicable(rule, a, inst)])
    prof = intweights(profile(inst, case["s"]), rule, alg)
    resolute = rng.choice(R.resolute_values + (True,)) if True in R.resolute_values else False
    if rule in SEQUENTIAL and rng.random() < 0.4:
        resolute = True
    if not resolute and not irresolute_ok(rule, inst, 60):
        resolute = True
    desc = "%s/%s resolute=%s %s names=%s" % (rule, alg, resolute, show(inst), inst["names"])
    mech = "%s" % rule
    r, _, _, calls, out, _ = observed(mon, lambda: abcrules.compute(rule, prof, k, algorithm=alg, resolute=resolute), 15, False)
    if r[0] != "ok":
        mon.violate("%s: %r" % (desc, r), mech + ":crash")
    mon.count("rule_runs")
    res = [frozenset(c) for c in r[1]]
    text = "\n".join(c[1] for c in calls) + "\n"
    L = Log(mon, text, list(prof.cand_names), desc, mech)
    names = [str(x) for x in prof.cand_names]
    L.names = names
    L.index = {x: i for i, x in enumerate(names)}
    if inst["names"]:
        mon.count("names")
    mon.seen(rule, alg, resolute, m, k, sorted(map(sorted, votes)), w)
    mon.count("log:" + rule)
    # frame
    if R.longname not in text:
        L.fail("the rule's name %r is missing" % R.longname, ":header")
    single = "Computing only one winning committee (resolute=True)" in text
    par = "(resolute=False)" in text
    if single and not resolute or par and resolute:
        L.fail("wrong mode reported", ":mode")
    g = L.find(r"Algorithm: ([^\n]*)")
    L.same(g.group(1).strip(), abcrules.ALGORITHM_NAMES[alg], "algorithm")
    if not resolute:
        mon.count("irresolute")
    pos = L.pos
    # list of committees
    g = re.search(r"(\d+) winning committees?:\n((?: \{[^\n]*\}\n)*)", text)
    if not g:
        L.fail("no list of winning committees", ":committees")
    shown = [frozenset(L.cset(x.strip()[1:-1])) for x in g.group(2).strip("\n").split("\n")] if g.group(2) else []
    L.same(int(g.group(1)), len(res), "number of winning committees")
    L.same(sorted(map(sorted, shown)), sorted(map(sorted, res)), "winning committees")
    L.pos = pos
    sid = rule
    if rule in ("av", "sav"):
        if rule == "sav" and sav_affected(prof, k):
            raise Skip("known-finding")
        log_separable(L, rule, res, votes, w, m, k, o.sep_opt(rule, m, k, votes, w)[0])
    elif rule in ("pav", "slav", "cc", "geom2", "geom3", "geom1.5"):
        g = L.find(re.escape(sid.upper()) + r"-score: (NUM)")
        L.num(g.group(1), o.thiele_score(sid, votes, w, res[0]), "optimal score")
    elif rule == "lexcc":
        L.find("At-least-ell scores:")
        want = o.lexcc_vec(votes, w, res[0], k)
        for i in range(k):
            g = L.find(r"at-least-%d: (NUM)" % (i + 1))
            L.num(g.group(1), want[i], "at-least-%d score" % (i + 1))
    elif rule == "monroe":
        g = L.find(r"Optimal Monroe score: (NUM)")
        L.num(g.group(1), o.monroe_score(votes, res[0]), "Monroe score")
    elif rule in ("minimaxav", "lexminimaxav"):
        g = L.find(r"Minimum maximal distance: (\d+)")
        L.same(int(g.group(1)), max(o.ham(res[0], b) for b in votes), "maximal distance")
        L.find(r"Corresponding distances to voters:")
        rows = []
        while True:
            g = L.find(r"\[([\d, ]*)\]\n", optional=True)
            if not g:
                break
            rows.append([int(x) for x in g.group(1).split(",")])
        L.same(rows, [[o.ham(c, b) for b in votes] for c in shown], "distances")
    elif rule.startswith("seq") and rule != "seqphragmen":
        if resolute:
            log_seq(L, rule, res, votes, w, m, k)
        log_seq_end(L, rule[3:], res, votes, w)
    elif rule.startswith("revseq"):
        if resolute:
            log_revseq(L, rule, res, votes, w, m, k)
        g = L.find(re.escape(rule[6:].upper()) + r"-score of winning committee:((?: NUM)+)")
        for x, c in zip(g.group(1).split(), shown):
            L.num(x, o.thiele_score(rule[6:], votes, w, c), "score of winning committee %s" % sorted(c))
        L.same(len(g.group(1).split()), len(res), "number of scores")
    elif rule == "seqphragmen":
        st, step = o.step_seqphragmen(m, votes, w)
        if resolute:
            com, load = [], [F(0)] * len(votes)
            log_loads(L, com, load, k, load, votes, w, m)
            L.same([frozenset(com)], res, "committee at the end of the steps")
        ends = all_end_states(st, step, k)
        d = None
        if ends is not None:
            d = {}
            for c, ld in ends:
                d.setdefault(c, []).append(ld)
        if alg == "float-fractions" and d is not None and not set(res) <= set(d):
            d = None
        # an unapproved candidate adds no load
        if not any(x not in frozenset().union(*votes) for c in res for x in c):
            log_load_pairs(L, res, votes, w, m, k, d)
        else:
            log_load_pairs(L, res, votes, w, m, k, None)
    elif rule.startswith("equal-shares"):
        log_mes(L, rule, alg, res, votes, w, m, k, resolute)
    elif rule == "greedy-monroe":
        log_greedy_monroe(L, res, votes, m, k)
    elif rule == "maximin-support":
        if resolute:
            log_maximin(L, res, votes, w, m, k)


# ---------------------------------------------------------------- axiom checkers
def ints(s):
    return {int(x) for x in s.split(",")} if s.strip() else set()


def do_check(case, mon):
    inst, prop = case["inst"], case["prop"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    n = len(votes)
    rng = random.Random(case["s"])
    prof = profile(dict(inst, names=None), case["s"])
    com = rng.sample(range(m), k)
    if prop == "priceability" and rng.random() < 0.7:
        com = sorted(abcrules.compute(rng.choice(["seqphragmen", "equal-shares"]), prof, k)[0])
    cs = frozenset(com)
    f = {"jr": properties.check_JR, "pjr": properties.check_PJR, "ejr": properties.check_EJR, "ejr+": properties.check_EJR_plus,
         "fjr": properties.check_FJR, "core": properties.check_core, "pareto": properties.check_pareto_optimality,
         "priceability": properties.check_priceability}[prop]
    kw = {}
    tot = sum(w)
    q = tot / k
    if prop not in ("pareto", "priceability") and rng.random() < 0.4:
        q = rng.choice([tot / (k + 1), tot, F(rng.randint(1, 5)), tot / rng.randint(1, 5)])
        if tot / q > 40:
            q = tot / k
        kw["quota"] = q
    if prop in ("pjr", "ejr", "fjr", "core", "pareto"):
        kw["algorithm"] = rng.choice(["brute-force", "gurobi"])
    desc = "%s(%s, %r) on %s" % (prop, sorted(com), kw, show(inst))
    r, _, _, calls, out, _ = observed(mon, lambda: f(prof, com, **kw), 15, False)
    if r[0] != "ok":
        mon.violate("%s: %r" % (desc, r), prop + ":crash")
    verdict = r[1]
    text = "\n".join(c[1] for c in calls) + "\n"
    L = Log(mon, text, [str(c) for c in range(m)], desc, prop)
    mon.count("checker_runs")
    mon.seen(prop, m, k, sorted(map(sorted, votes)), w, sorted(com))
    g = L.find(r"Committee SET (satisfies|does not satisfy|is in|is not in|is Pareto|is not Pareto|is priceable|is not priceable)")
    L.same(frozenset(ints(g.group(1))), cs, "committee")
    L.same("not" not in g.group(2), bool(verdict), "verdict")
    if "quota" in kw:
        g = L.find(r"\(for quota = (\S+)\)\.")
        L.num(g.group(1), q, "quota")
    if prop == "priceability":
        L.pos = 0
        if not verdict or not is_unit(inst):
            return
        g = L.find(r"Budget: (NUM)", optional=True)
        if not g:
            L.same(len(frozenset().union(*votes)) < k, True, "payments omitted,")
            return
        b = float(F(g.group(1)))
        head = L.find(r"\| ([\d| ]*)\n")
        cols = [int(x) for x in head.group(1).split("|")]
        L.same(cols, list(range(m)), "columns")
        pay = []
        for v in range(n):
            g = L.find(r"(\d+) \| ([^\n]*)\n")
            L.same(int(g.group(1)), v, "row")
            pay.append([float(x) for x in g.group(2).split("|")])
            L.same(len(pay[-1]), m, "payments in row %d" % v)
        eps = 1e-5
        for v in range(n):
            L.same(sum(pay[v]) <= b + eps, True, "payments of voter %d within the budget" % v)
            for c in range(m):
                L.same(pay[v][c] >= -eps and (c in votes[v] or abs(pay[v][c]) <= eps), True, "payment of voter %d for %d admissible" % (v, c))
        for c in range(m):
            s = sum(pay[v][c] for v in range(n))
            L.same(abs(s - (1 if c in cs else 0)) <= eps, True, "payments for %d adding up" % c)
            if c not in cs:
                left = sum(b - sum(pay[v]) for v in range(n) if c in votes[v])
                L.same(left <= 1 + eps, True, "unspent budget of the supporters of %d at most 1" % c)
        mon.count("payments")
        return
    if verdict:
        return
    mon.count("witness:" + prop)
    if prop == "pareto":
        g = L.find(r"dominated by the committee SET")
        d = frozenset(ints(g.group(1)))
        L.same(len(d), k, "size of the dominating committee %s" % sorted(d))
        a = [len(d & b) for b in votes]
        b_ = [len(cs & b) for b in votes]
        L.same(all(x >= y for x, y in zip(a, b_)) and a != b_, True, "committee %s dominating" % sorted(d))
        return
    g = L.find(r"group of voters SET\s*\((\d+\.\d)% of all voters( \(by weight\))?\)")
    grp = ints(g.group(1))
    L.same(bool(grp) and grp <= set(range(n)), True, "group %s of voters" % grp)
    gw = sum(w[v] for v in grp)
    L.same(abs(float(g.group(2)) - 100 * float(gw / tot)) < 0.051, True, "share %s%% of the group %s equal to %s" % (g.group(2), sorted(grp), gw / tot))
    L.same(bool(g.group(3)), not all(x == 1 for x in w), "remark 'by weight'")
    if g.group(3):
        mon.count("weighted-witness")
    sat = {v: len(votes[v] & cs) for v in grp}
    if prop in ("jr", "pjr", "ejr"):
        ell = int(re.search(r"(\d+)-cohesive", text).group(1))
        if prop == "jr":
            g = L.find(r"jointly approve candidate (\d+), but none of them approve a candidate in the committee")
            joint = {int(g.group(1))}
        else:
            g = L.find(r"jointly approve the candidates SET, but")
            joint = ints(g.group(1))
            e2 = int(L.find(r"approves (\d+) candidates in the committee" if prop == "ejr" else r"approve fewer than (\d+) candidates in the committee").group(1))
            L.same(e2, ell, "second mention of ell")
        L.same(len(joint) >= ell >= 1, True, "group %d-cohesive (joint candidates %s)" % (ell, sorted(joint)))
        L.same(all(joint <= votes[v] for v in grp), True, "joint candidates %s approved by the group" % sorted(joint))
        L.same(gw >= ell * q, True, "group of weight %s large enough for %d (quota %s)" % (gw, ell, q))
        if prop == "jr":
            L.same(max(sat.values()), 0, "approved committee members of the group")
        elif prop == "ejr":
            L.same(max(sat.values()) < ell, True, "nobody of the group with %d representatives" % ell)
        else:
            L.same(len(frozenset().union(*(votes[v] & cs for v in grp))) < ell, True, "group with fewer than %d representatives together" % ell)
    elif prop == "ejr+":
        g = L.find(r"deserves (\d+) candidates, and jointly approve candidate (\d+) which is not part of the committee, but no member approves at least (\d+)")
        ell, c = int(g.group(1)), int(g.group(2))
        L.same(int(g.group(3)), ell, "second mention of ell")
        L.same(c not in cs and all(c in votes[v] for v in grp), True, "candidate %d outside the committee and approved by the group" % c)
        L.same(gw >= ell * q and ell >= 1, True, "group of weight %s large enough for %d (quota %s)" % (gw, ell, q))
        L.same(max(sat.values()) < ell, True, "nobody of the group with %d representatives" % ell)
    elif prop == "fjr":
        g = L.find(r"each approve at least (\d+) of the (\d+) candidates SET,\s*but all approve at most (-?\d+) candidates in the committee")
        beta, ell, T, b1 = int(g.group(1)), int(g.group(2)), ints(g.group(3)), int(g.group(4))
        L.same((len(T), b1), (ell, beta - 1), "sizes")
        L.same(gw >= ell * q and ell >= 1, True, "group of weight %s large enough for %d (quota %s)" % (gw, ell, q))
        L.same(all(len(votes[v] & T) >= beta for v in grp), True, "group approving at least %d of %s" % (beta, sorted(T)))
        L.same(max(sat.values()) < beta, True, "group approving fewer than %d of the committee" % beta)
    elif prop == "core":
        g = L.find(r"can block the outcome by proposing SET, in which each group member approves strictly more")
        T = ints(g.group(1))
        L.same(bool(T) and gw >= len(T) * q, True, "group of weight %s large enough for %s (quota %s)" % (gw, sorted(T), q))
        L.same(all(len(votes[v] & T) > sat[v] for v in grp), True, "group preferring %s" % sorted(T))


def run_case(case, mon):
    try:
        if case["kind"] == "rule":
            do_rule(case, mon)
        else:
            do_check(case, mon)
    except Skip:
        raise
