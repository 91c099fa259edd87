"""Exact linear feasibility over the rationals (two-phase simplex, Bland's rule)."""
try:
    from gmpy2 import mpq as Q
except ImportError:
    from fractions import Fraction as Q


def feasible(nvars, rows, maxpivots=4000):
    """rows: list of (coeffs dict var->number, sense in {'<=','==','>='}, rhs). Variables >= 0.
    Returns a solution list (exact) or None if infeasible."""
    # bring to A x + s = b with b >= 0, artificials where needed
    m = len(rows)
    T = []
    basis = []
    ncols = nvars
    slack = {}
    for i, (co, sense, rhs) in enumerate(rows):
        if sense != "==":
            slack[i] = ncols
            ncols += 1
    art = {}
    norm = []
    for i, (co, sense, rhs) in enumerate(rows):
        sgn = 1
        rhs = Q(rhs)
        if rhs < 0:
            sgn = -1
        row = {}
        for j, a in co.items():
            if a:
                row[j] = Q(a) * sgn
        s = None
        if sense != "==":
            s = (1 if sense == "<=" else -1) * sgn
            row[slack[i]] = Q(s)
        norm.append((row, rhs * sgn, s))
    for i, (row, rhs, s) in enumerate(norm):
        if s == 1:
            basis.append(slack[i])
        else:
            art[i] = ncols
            row[ncols] = Q(1)
            basis.append(ncols)
            ncols += 1
    arts = set(art.values())
    A = []
    b = []
    for row, rhs, s in norm:
        A.append(dict(row))
        b.append(rhs)
    # objective: minimise sum of artificials -> reduced costs
    z = {}
    zval = Q(0)
    for i in art:
        for j, a in A[i].items():
            if j not in arts:
                z[j] = z.get(j, Q(0)) + a
        zval += b[i]
    piv = 0
    while zval > 0:
        # entering: positive z (reduces sum of artificials), Bland
        cand = [j for j, v in z.items() if v > 0]
        if not cand:
            return None
        j = min(cand)
        best = None
        for i in range(m):
            a = A[i].get(j)
            if a is not None and a > 0:
                r = b[i] / a
                if best is None or r < best[0] or (r == best[0] and basis[i] < best[2]):
                    best = (r, i, basis[i])
        if best is None:
            return None
        i = best[1]
        p = A[i][j]
        A[i] = {c: v / p for c, v in A[i].items()}
        b[i] = b[i] / p
        for r in range(m):
            if r != i:
                f = A[r].get(j)
                if f:
                    Ar = A[r]
                    for c, v in A[i].items():
                        nv = Ar.get(c, 0) - f * v
                        if nv:
                            Ar[c] = nv
                        else:
                            Ar.pop(c, None)
                    b[r] -= f * b[i]
        f = z.get(j)
        if f:
            for c, v in A[i].items():
                if c in arts:
                    continue
                nv = z.get(c, 0) - f * v
                if nv:
                    z[c] = nv
                else:
                    z.pop(c, None)
            zval -= f * b[i]
        basis[i] = j
        piv += 1
        if piv > maxpivots:
            raise RuntimeError("lp: pivot limit")
    x = [Q(0)] * nvars
    for i, j in enumerate(basis):
        if j < nvars:
            x[j] = b[i]
    return x
