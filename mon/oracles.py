"""Reference oracles: exact (Fraction) definitions of the rules and axioms.

Written from the published definitions; nothing from abcvoting is imported here.
An instance is (m, votes, w): number of candidates, list of frozensets, list of exact weights.
"""
from fractions import Fraction as F
from itertools import combinations
from functools import lru_cache


class TooLarge(Exception):
    pass


# ------------------------------------------------------------------ Thiele
def thiele_f(sid):
    if sid == "pav":
        return lambda i: F(1, i)
    if sid == "slav":
        return lambda i: F(1, 2 * i - 1)
    if sid == "cc":
        return lambda i: F(1 if i == 1 else 0)
    if sid == "av":
        return lambda i: F(1)
    if sid.startswith("geom"):
        b = F(sid[4:])
        return lambda i: 1 / (b ** (i - 1))
    if sid.startswith("atleast"):
        l = int(sid[7:])
        return lambda i: F(1 if i == l else 0)
    raise KeyError(sid)


def thiele_score(sid, votes, w, com):
    f = thiele_f(sid)
    com = frozenset(com)
    top = max([len(b & com) for b in votes] or [0])
    cum = [F(0)]
    for i in range(1, top + 1):
        cum.append(cum[-1] + f(i))
    return sum((wt * cum[len(b & com)] for b, wt in zip(votes, w)), F(0))


def argopt(m, k, key, best=max):
    vals = {}
    for c in combinations(range(m), k):
        vals[frozenset(c)] = key(frozenset(c))
    o = best(vals.values())
    return {c for c, v in vals.items() if v == o}, o


def thiele_opt(sid, m, k, votes, w):
    f = thiele_f(sid)
    cum = [F(0)]
    for i in range(1, k + 1):
        cum.append(cum[-1] + f(i))
    return argopt(m, k, lambda c: sum((wt * cum[len(b & c)] for b, wt in zip(votes, w)), F(0)))


def lexcc_vec(votes, w, com, k):
    cnt = [len(b & com) for b in votes]
    return tuple(sum((wt for x, wt in zip(cnt, w) if x >= l), F(0)) for l in range(1, k + 1))


def lexcc_opt(m, k, votes, w):
    return argopt(m, k, lambda c: lexcc_vec(votes, w, c, k))


# ------------------------------------------------------------------ separable, minimax
def sep_scores(kind, m, votes, w):
    s = [F(0)] * m
    for b, wt in zip(votes, w):
        for c in b:
            s[c] += F(wt) if kind == "av" else F(wt) / len(b)
    return s


def sep_opt(kind, m, k, votes, w):
    s = sep_scores(kind, m, votes, w)
    srt = sorted(s)
    cut = srt[-k]
    certain = [c for c in range(m) if s[c] > cut]
    poss = [c for c in range(m) if s[c] == cut]
    return {frozenset(certain) | frozenset(x) for x in combinations(poss, k - len(certain))}, s


def ham(a, b):
    return len(a ^ b)


def mav_opt(m, k, votes):
    return argopt(m, k, lambda c: max(ham(c, b) for b in votes), min)


def lexmav_opt(m, k, votes):
    return argopt(m, k, lambda c: sorted((ham(c, b) for b in votes), reverse=True), min)


# ------------------------------------------------------------------ Monroe
def monroe_score(votes, com):
    com = sorted(com)
    n, k = len(votes), len(com)
    q, r = divmod(n, k)
    # candidates' districts: q slots each plus at most one extra slot for at most r of them
    assigned = {c: [] for c in com}

    def slack_extra():
        return r - sum(1 for c in com if len(assigned[c]) > q)

    def augment(v):
        # BFS over candidates; a candidate can absorb if below q, or if an extra slot is free
        prev = {}
        seen = set()
        queue = []
        for c in com:
            if c in votes[v]:
                seen.add(c); prev[c] = (None, v); queue.append(c)
        over_seen = False
        i = 0
        while i < len(queue):
            c = queue[i]; i += 1
            if len(assigned[c]) < q or (len(assigned[c]) == q and slack_extra() > 0):
                return c, prev
            for u in assigned[c]:
                for d in com:
                    if d in votes[u] and d not in seen:
                        seen.add(d); prev[d] = (c, u); queue.append(d)
            if len(assigned[c]) == q and r > 0 and not over_seen:
                # use the shared extra slots: take the extra slot of a candidate that has q + 1
                over_seen = True
                for d in com:
                    if len(assigned[d]) == q + 1 and d not in seen:
                        seen.add(d); prev[d] = (c, "extra"); queue.append(d)
        return None, prev

    score = 0
    for v in range(n):
        c, prev = augment(v)
        if c is None:
            continue
        score += 1
        # unwind
        while True:
            p, u = prev[c]
            if u == "extra":
                # c gives up its extra slot to p: nothing to move, handled by counts below
                # c must lose one voter: the step that led from c onward already moved it away
                c = p
                continue
            if p is None:
                assigned[c].append(u)
                break
            assigned[p].remove(u)
            assigned[c].append(u)
            c = p
    return score


def monroe_score_flow(votes, com):
    """max-flow (Edmonds-Karp on unit/small capacities); the definition, literally"""
    com = sorted(com)
    n, k = len(votes), len(com)
    q, r = divmod(n, k)
    S, T, X = "s", "t", "x"
    cap = {}
    adj = {}

    def edge(a, b, c):
        if c <= 0:
            return
        cap[(a, b)] = cap.get((a, b), 0) + c
        cap.setdefault((b, a), 0)
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    for v in range(n):
        edge(S, ("v", v), 1)
        for c in com:
            if c in votes[v]:
                edge(("v", v), ("c", c), 1)
    for c in com:
        edge(("c", c), T, q)
        if r:
            edge(("c", c), X, 1)
    if r:
        edge(X, T, r)
    flow = 0
    while True:
        par = {S: None}
        queue = [S]
        for a in queue:
            if a == T:
                break
            for b in adj.get(a, []):
                if b not in par and cap[(a, b)] > 0:
                    par[b] = a
                    queue.append(b)
        if T not in par:
            return flow
        b = T
        while par[b] is not None:
            a = par[b]
            cap[(a, b)] -= 1
            cap[(b, a)] += 1
            b = a
        flow += 1


def monroe_opt(m, k, votes):
    return argopt(m, k, lambda c: monroe_score_flow(votes, c))


# ------------------------------------------------------------------ Phragmen-type optimisation
INF = float("inf")


def _nonempty_subsets(s):
    s = sorted(s)
    for r in range(1, len(s) + 1):
        for x in combinations(s, r):
            yield x


def minimax_load(votes, w, com):
    """smallest possible maximal load = max over nonempty S of |S| / weight(N(S)) (Hall / max-flow)"""
    worst = F(0)
    for S in _nonempty_subsets(com):
        s = frozenset(S)
        ws = sum((wt for b, wt in zip(votes, w) if b & s), F(0))
        if ws == 0:
            return INF
        worst = max(worst, F(len(s)) / ws)
    return worst


def leximax_loads(votes, w, com):
    """the lexicographically optimal load vector as a list of (load, weight), decreasing"""
    rest = frozenset(com)
    voters = list(range(len(votes)))
    out = []
    while rest:
        best, bset = None, None
        for S in _nonempty_subsets(rest):
            s = frozenset(S)
            ws = sum((w[v] for v in voters if votes[v] & s), F(0))
            if ws == 0:
                return None
            val = F(len(s)) / ws
            if best is None or val > best:
                best, bset = val, s
            elif val == best:
                bset = bset | s  # the union of maximisers is a maximiser
        touched = [v for v in voters if votes[v] & bset]
        for v in touched:
            out.append((best, w[v]))
        voters = [v for v in voters if v not in set(touched)]
        rest = rest - bset
    for v in voters:
        out.append((F(0), w[v]))
    return out


def leximax_key(loads, weighted=True):
    """sorted loads, as a step function when weighted (a voter of weight w counts as w voters)"""
    if loads is None:
        return None
    agg = {}
    for l, wt in loads:
        agg[l] = agg.get(l, F(0)) + (wt if weighted else 1)
    return sorted(agg.items(), reverse=True)


def leximax_less(a, b):
    """-1/0/1 comparison of two step functions [(load, mass), ...] in decreasing order"""
    a = [list(x) for x in a]; b = [list(x) for x in b]
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] != b[j][0]:
            return -1 if a[i][0] < b[j][0] else 1
        mass = min(a[i][1], b[j][1])
        a[i][1] -= mass; b[j][1] -= mass
        if a[i][1] == 0:
            i += 1
        if b[j][1] == 0:
            j += 1
    return 0


def minimaxphragmen_opt(m, k, votes, w):
    appr = frozenset().union(*votes) if votes else frozenset()
    if len(appr) < k:
        un = [c for c in range(m) if c not in appr]
        return {appr | frozenset(x) for x in combinations(un, k - len(appr))}, None
    best, res = None, set()
    for c in combinations(sorted(appr), k):
        v = minimax_load(votes, w, c)
        if best is None or v < best:
            best, res = v, {frozenset(c)}
        elif v == best:
            res.add(frozenset(c))
    return res, best


def leximaxphragmen_opt(m, k, votes, w, weighted=True):
    appr = frozenset().union(*votes) if votes else frozenset()
    if len(appr) < k:
        un = [c for c in range(m) if c not in appr]
        return {appr | frozenset(x) for x in combinations(un, k - len(appr))}, None
    best, res = None, set()
    for c in combinations(sorted(appr), k):
        v = leximax_key(leximax_loads(votes, w, c), weighted)
        o = -1 if best is None else leximax_less(v, best)
        if o < 0:
            best, res = v, {frozenset(c)}
        elif o == 0:
            res.add(frozenset(c))
    return res, best


def support_value(votes, w, com):
    """maximin support = min over nonempty S of weight(N(S)) / |S|"""
    best = None
    for S in _nonempty_subsets(com):
        s = frozenset(S)
        v = sum((wt for b, wt in zip(votes, w) if b & s), F(0)) / len(s)
        if best is None or v < best:
            best = v
    return best


# ------------------------------------------------------------------ sequential rules, all universes
def universes(start, step, rounds, cap=4000):
    """start state -> {final committees}; step(state) -> [(cand, next state), ...] over tied candidates.

    Returns (set of committees reachable, committee of the smallest-index universe, number of
    universes (tie-breaking paths), maximal tie width). States are (committee frozenset, extra)."""
    level = {start: 1}
    first = start
    memo = {}
    width = 1
    for _ in range(rounds):
        nxt = {}
        for st, cnt in level.items():
            succ = step(st)
            memo[st] = succ
            width = max(width, len(succ))
            for _, s2 in succ:
                nxt[s2] = nxt.get(s2, 0) + cnt
        if sum(nxt.values()) > cap:
            raise TooLarge("universes")
        first = memo[first][0][1]
        level = nxt
    return {st[0] for st in level}, first[0], sum(level.values()), width


def first_universe(start, step, rounds):
    """the resolute universe: list of (chosen candidate, tied candidates, state)"""
    st, out = start, []
    for _ in range(rounds):
        succ = step(st)
        out.append((succ[0][0], [c for c, _ in succ], succ[0][1]))
        st = succ[0][1]
    return out


def step_seqthiele(sid, m, votes, w):
    f = thiele_f(sid)

    @lru_cache(None)
    def step(st):
        com, _ = st
        gain = {}
        cnt = [len(b & com) for b in votes]
        for c in range(m):
            if c not in com:
                gain[c] = sum((wt * f(x + 1) for b, x, wt in zip(votes, cnt, w) if c in b), F(0))
        g = max(gain.values())
        return [(c, (com | {c}, None)) for c in sorted(gain) if gain[c] == g]
    return (frozenset(), None), step


def step_revseqthiele(sid, m, votes, w):
    f = thiele_f(sid)

    @lru_cache(None)
    def step(st):
        com, _ = st
        loss = {}
        cnt = [len(b & com) for b in votes]
        for c in com:
            loss[c] = sum((wt * f(x) for b, x, wt in zip(votes, cnt, w) if c in b), F(0))
        g = min(loss.values())
        # resolute tie-breaking keeps smaller indices: the largest tied index is removed
        return [(c, (com - {c}, None)) for c in sorted(loss, reverse=True) if loss[c] == g]
    return (frozenset(range(m)), None), step


def step_seqphragmen(m, votes, w, start_com=(), start_load=None):
    n = len(votes)
    wc = [sum((wt for b, wt in zip(votes, w) if c in b), F(0)) for c in range(m)]

    @lru_cache(None)
    def step(st):
        com, load = st
        new = {}
        for c in range(m):
            if c in com:
                continue
            if wc[c] == 0:
                new[c] = INF
            else:
                new[c] = (1 + sum((w[v] * load[v] for v in range(n) if c in votes[v]), F(0))) / wc[c]
        lo = min(new.values())
        out = []
        for c in sorted(new):
            if new[c] == lo:
                nl = tuple(new[c] if c in votes[v] else load[v] for v in range(n))
                out.append((c, (com | {c}, nl)))
        return out
    return (frozenset(start_com), tuple(start_load) if start_load is not None else (F(0),) * n), step


def step_enestroem(m, k, votes, w):
    n = len(votes)
    price = F(sum(w)) / k

    @lru_cache(None)
    def step(st):
        com, bud = st
        sup = {c: sum((bud[v] for v in range(n) if c in votes[v]), F(0)) for c in range(m) if c not in com}
        hi = max(sup.values())
        mult = (hi - price) / hi if hi > price else F(0)
        return [(c, (com | {c}, tuple(b * mult if c in votes[v] else b for v, b in enumerate(bud))))
                for c in sorted(sup) if sup[c] == hi]
    return (frozenset(), tuple(F(x) for x in w)), step


def step_consensus(m, votes, w):
    n = len(votes)
    tot = F(sum(w))

    @lru_cache(None)
    def step(st):
        com, bud0 = st
        bud = [b + w[v] for v, b in enumerate(bud0)]
        sup, who = {}, {}
        for c in range(m):
            if c in com:
                continue
            who[c] = [v for v in range(n) if c in votes[v] and bud[v] > 0]
            sup[c] = sum((bud[v] for v in who[c]), F(0))
        hi = max(sup.values())
        out = []
        for c in sorted(sup):
            if sup[c] == hi:
                nb = list(bud)
                ws = sum((w[v] for v in who[c]), F(0))
                for v in who[c]:
                    nb[v] -= w[v] * tot / ws
                out.append((c, (com | {c}, tuple(nb))))
        return out
    return (frozenset(), (F(0),) * n), step


def step_maximin(m, votes, w, tol=None):
    @lru_cache(None)
    def step(st):
        com, _ = st
        val = {c: support_value(votes, w, com | {c}) for c in range(m) if c not in com}
        hi = max(val.values())
        return [(c, (com | {c}, None)) for c in sorted(val) if val[c] == hi]
    return (frozenset(), None), step


# ------------------------------------------------------------------ Equal Shares
def mes_rho(votes, w, bud, c):
    """smallest per-weight price rho with sum min(b_v, rho w_v) = 1 over supporters, or None"""
    sup = [v for v in range(len(votes)) if c in votes[v]]
    if sum((bud[v] for v in sup), F(0)) < 1 or not sup:
        return None
    sup.sort(key=lambda v: F(bud[v]) / w[v])
    rest_w = sum((w[v] for v in sup), F(0))
    paid = F(0)
    for v in sup:
        rho = (1 - paid) / rest_w
        if rho * w[v] <= bud[v]:
            return rho
        paid += bud[v]
        rest_w -= w[v]
    return None


def mes_step(m, votes, w):
    n = len(votes)

    @lru_cache(None)
    def step(st):
        com, bud = st
        rho = {}
        for c in range(m):
            if c not in com:
                r = mes_rho(votes, w, bud, c)
                if r is not None:
                    rho[c] = r
        if not rho:
            return []
        lo = min(rho.values())
        return [(c, (com | {c}, tuple(b - min(b, lo * w[v]) if c in votes[v] else b for v, b in enumerate(bud))))
                for c in sorted(rho) if rho[c] == lo]
    return step


def mes_phase1(m, k, votes, w, cap=4000, budget=None):
    """all end states of the purchasing phase, and the smallest-index one; paths counted"""
    tot = F(sum(w))
    per = F(budget) if budget is not None else F(k) / tot
    start = (frozenset(), tuple(F(x) * per for x in w))
    step = mes_step(m, votes, w)
    ends = {}
    level = {start: 1}
    total = 0
    for _ in range(k + 1):
        nxt = {}
        for st, cnt in level.items():
            succ = step(st) if len(st[0]) < k else []
            if not succ:
                ends[st] = ends.get(st, 0) + cnt
                total += cnt
            for _, s2 in succ:
                nxt[s2] = nxt.get(s2, 0) + cnt
        if sum(nxt.values()) + total > cap:
            raise TooLarge("mes")
        level = nxt
    first = mes_first(m, k, votes, w, per)
    return ends, first


def mes_first(m, k, votes, w, per):
    step = mes_step(m, votes, w)
    st = (frozenset(), tuple(F(x) * per for x in w))
    while len(st[0]) < k:
        succ = step(st)
        if not succ:
            break
        st = succ[0][1]
    return st


def mes_complete(kind, st, m, k, votes, w, cap=3000):
    """(all completions, smallest-index completion or None, number of paths) of an end state"""
    com, bud = st
    if len(com) == k or kind is None:
        return {com}, com, 1
    if kind == "seqphragmen":
        load = [-F(b) / w[v] for v, b in enumerate(bud)]
        s0, step = step_seqphragmen(m, votes, w, com, load)
        all_, first, paths, _ = universes(s0, step, k - len(com), cap)
        return all_, first, paths
    if kind == "av":
        s = sep_scores("av", m, votes, w)
        rest = [c for c in range(m) if c not in com]
        need = k - len(com)
        cut = sorted((s[c] for c in rest), reverse=True)[need - 1]
        sure = [c for c in rest if s[c] > cut]
        tie = [c for c in rest if s[c] == cut]
        out = {com | frozenset(sure) | frozenset(x) for x in combinations(tie, need - len(sure))}
        return out, None, len(out)
    raise KeyError(kind)


def mes_increment(m, k, votes, w, limit=100000):
    appr = frozenset().union(*votes)
    if len(appr) < k:
        return None, None
    j = k
    tot = F(sum(w))
    while j < limit:
        st = mes_first(m, k, votes, w, F(j) / tot)
        if len(st[0]) == k:
            return st[0], j
        j += 1
    raise TooLarge("increment")


# ------------------------------------------------------------------ others
def greedy_monroe(m, k, votes):
    n = len(votes)
    rem = list(range(n))
    com = []
    assign = []
    for t in range(k):
        size = n // k + (1 if t < n % k else 0)
        best, bc = -1, None
        for c in range(m):
            if c in com:
                continue
            a = sum(1 for v in rem if c in votes[v])
            if a > best:
                best, bc = a, c
        take = [v for v in rem if bc in votes[v]][:size]
        rem = [v for v in rem if v not in take]
        com.append(bc)
        assign.append((bc, take))
    return frozenset(com), assign, rem


def eph(m, k, votes, w):
    rem = set(range(m))
    while True:
        sdv = {c: F(0) for c in rem}
        av = {c: F(0) for c in rem}
        for b, wt in zip(votes, w):
            ra = [c for c in rem if c in b]
            for c in ra:
                sdv[c] += F(wt) / len(ra)
                av[c] += wt
        if len(rem) == k:
            return {frozenset(rem)}
        srt = sorted(sdv.values())
        cut = srt[1]
        low = [c for c in rem if sdv[c] <= cut]
        mn = min(av[c] for c in low)
        elim = [c for c in low if av[c] == mn]
        if len(rem) - len(elim) <= k:
            return {frozenset(rem) - frozenset(x) for x in combinations(elim, len(rem) - k)}
        rem -= set(elim)


def rsd_all(m, k, votes):
    """all committees in the support of random serial dictatorship (DP over sets of used voters)"""
    n = len(votes)
    seen = {}
    finals = set()
    srt = [sorted(b) for b in votes]
    stack = [(frozenset(), frozenset())]
    visited = set(stack)
    while stack:
        used, com = stack.pop()
        if len(com) == k:
            finals.add(com)
            continue
        if len(used) == n:
            rest = [c for c in range(m) if c not in com]
            for x in combinations(rest, k - len(com)):
                finals.add(com | frozenset(x))
            continue
        for v in range(n):
            if v in used:
                continue
            new = set(com)
            for c in srt[v]:
                new.add(c)
                if len(new) == k:
                    break
            st = (used | {v}, frozenset(new))
            if st not in visited:
                visited.add(st)
                stack.append(st)
            if len(visited) > 20000:
                raise TooLarge("rsd")
    return finals


# ------------------------------------------------------------------ axioms
def _subsets(cands, size):
    return (frozenset(x) for x in combinations(cands, size))


def axiom(name, m, votes, w, com, q=None):
    """True iff the axiom holds; q = quota (default: Hare, total weight / committee size)"""
    com = frozenset(com)
    tot = F(sum(w))
    q = tot / len(com) if q is None else F(q)
    cands = sorted(frozenset().union(*votes)) if votes else []
    L = min(len(cands), int(tot / q))
    sat = [len(b & com) for b in votes]
    if name == "jr":
        return not any(sum((wt for b, s, wt in zip(votes, sat, w) if c in b and s == 0), F(0)) >= q for c in cands)
    if name == "ejr":
        for l in range(1, L + 1):
            for T in _subsets(cands, l):
                if sum((wt for b, s, wt in zip(votes, sat, w) if s < l and T <= b), F(0)) >= l * q:
                    return False
        return True
    if name == "pjr":
        for l in range(1, L + 1):
            for T in _subsets(cands, l):
                grp = [(b & com, wt) for b, wt in zip(votes, w) if T <= b]
                if sum((wt for _, wt in grp), F(0)) < l * q:
                    continue
                for U in _subsets(sorted(com), min(l - 1, len(com))):
                    if sum((wt for x, wt in grp if x <= U), F(0)) >= l * q:
                        return False
        return True
    if name == "ejr+":
        for c in cands:
            if c in com:
                continue
            for l in range(1, int(tot / q) + 1):
                if sum((wt for b, s, wt in zip(votes, sat, w) if c in b and s < l), F(0)) >= l * q:
                    return False
        return True
    if name == "fjr":
        for t in range(1, L + 1):
            for T in _subsets(cands, t):
                for beta in range(1, t + 1):
                    if sum((wt for b, s, wt in zip(votes, sat, w) if s < beta and len(b & T) >= beta), F(0)) >= t * q:
                        return False
        return True
    if name == "core":
        for t in range(1, L + 1):
            for T in _subsets(cands, t):
                g = sum((wt for b, s, wt in zip(votes, sat, w) if len(b & T) > s), F(0))
                if g > 0 and g >= t * q:
                    return False
        return True
    if name == "pareto":
        for o in combinations(range(m), len(com)):
            o = frozenset(o)
            so = [len(b & o) for b in votes]
            if all(a >= s for a, s in zip(so, sat)) and any(a > s for a, s in zip(so, sat)):
                return False
        return True
    raise KeyError(name)
