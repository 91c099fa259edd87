import io, logging, contextlib
from mon.common import *
from mon import gen
from mon.env import Faults
from abcvoting.output import Output

ID = "C24"
RULE = ("(a) random messages (long words, hyphens, empty lines, blanks, percent signs, unicode) through every method of fresh and global Output "
        "objects at every verbosity with and without a logger: stdout and logger records against the level rule and a whitespace-insensitive "
        "rendering; (b) every rule, algorithm, mode, checker, full_analysis and failing call (invalid requests, mismatching expected results, "
        "solver faults) repeated at every verbosity with and without a logger: same result or same exception, unchanged verbosity, stdout = "
        "the issued messages at or above the verbosity; non-trivial: distinct (operation, instance) and distinct messages")
ASSUMPTIONS = ["which messages a computation issues may depend on the verbosity (costly explanations are skipped), the result may not",
               "resolute or limited results of solver-based algorithms are compared by number and by membership in the irresolute result",
               "a hyphenated word may be broken at its hyphens"]
PLAN = {"quick": 8000, "thorough": 120000}
LEVELS = {"critical": 50, "error": 40, "warning": 30, "info": 20, "details": 15, "debug": 10, "debug2": 5}
LOGLEVEL = {50: 50, 40: 40, 30: 30, 20: 20, 15: 10, 10: 10, 5: 10}
VERB = [50, 40, 30, 20, 15, 10, 5]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"]
CHECKS = {"pareto": "check_pareto_optimality", "jr": "check_JR", "pjr": "check_PJR", "ejr": "check_EJR", "ejr+": "check_EJR_plus", "fjr": "check_FJR",
          "core": "check_core", "priceability": "check_priceability", "stable-priceability": "check_stable_priceability"}
REQUIRED = ["printed", "silent", "wrapped", "unwrapped", "logged", "indented", "several-lines", "op:rule", "op:check", "op:analysis", "op:fail",
            "op:fault", "op:message", "failed-alike", "details-printed", "log-records", "default-verbosity"] + ["rule:" + r for r in ALL_RULES] + ["check:" + p for p in PROPS]
OPS = ["rule"] * 4 + ["check"] * 2 + ["analysis", "fail", "fault"]


def gen_case(rng, idx, tier):
    if idx % 3 == 0:
        return {"kind": "message", "s": rng.randrange(1 << 60)}
    kind = OPS[(idx // 3) % len(OPS)]
    j = idx // 3
    rule = ALL_RULES[(j // len(OPS) * 4 + j % len(OPS)) % len(ALL_RULES)]
    wk = ["unit"] if rule in UNIT_ONLY or kind == "analysis" else None
    inst = gen.inst(rng, nmax=6, mmax=6 if kind == "rule" else 5, kmax=4, wkinds=wk, max_committees=20)
    return {"kind": kind, "rule": rule, "inst": inst, "s": rng.randrange(1 << 60)}


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


def new_logger():
    lg = logging.Logger("mon", level=1)
    h = Rec()
    lg.addHandler(h)
    return lg, h


def squash(s):
    return "".join(s.split())


WORDS = ["a", "committee", "{0, 1, 2}", "x" * 30, "y" * 75, "z" * 150, "well-known", "self-" * 12 + "end", "100%", "%s", "%(x)d", "Phragm\u00e9n", "0.5", "1/3", "--", "-", "(tie)",
         "{}", "\u4e2d\u6587", "end.", "...", "e-mail,", "[0]", "\\n"]


def message(rng):
    lines = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        n = rng.choice([0, 1, 2, 5, 12, 30])
        sep = rng.choice([" ", " ", " ", "  "])
        ln = sep.join(rng.choice(WORDS) for _ in range(n))
        if n and rng.random() < 0.2:
            ln = rng.choice([" ", "   "]) + ln
        if rng.random() < 0.1:
            ln += " "
        lines.append(ln)
    return "\n".join(lines)


def render_ok(mon, msg, out, wrap, indent, width):
    """is `out` (with final newline) a rendering of msg? returns a reason or None"""
    if not out.endswith("\n"):
        return "no final newline"
    out = out[:-1]
    if not wrap:
        mon.count("unwrapped")
        return None if out == msg else "unwrapped message changed"
    got = out.split("\n")
    i = 0
    for line in msg.split("\n"):
        want = squash(line)
        if not want:
            if i >= len(got) or squash(got[i]) not in ("", squash(indent)):
                return "empty line lost"
            i += 1
            continue
        acc = ""
        first = i
        words = line.split()
        while len(acc) < len(want):
            if i >= len(got):
                return "text lost: %r" % want[len(acc):]
            g = got[i]
            if not g.startswith(indent):
                return "line %r without indentation %r" % (g, indent)
            body = g[len(indent):]
            if not body.strip():
                return "line %r is empty" % g
            if len(g) > width and " " in body.strip():
                return "line %r longer than %d" % (g, width)
            acc += squash(body)
            i += 1
        if acc != want:
            return "text changed: %r to %r" % (want, acc)
        # words broken only at hyphens
        pieces = [p for g in got[first:i] for p in g[len(indent):].split()]
        j = 0
        for w in words:
            part = ""
            while part != w:
                if j >= len(pieces):
                    return "words changed"
                part += pieces[j]
                j += 1
                if part != w and not (w.startswith(part) and part.endswith("-")):
                    return "word %r broken as %r" % (w, part)
        if len(indent + line.rstrip()) <= width and i - first > 1:
            return "line %r wrapped needlessly" % line
        if i - first > 1:
            mon.count("wrapped")
    if i != len(got):
        return "extra lines %r" % got[i:]
    return None


def do_message(mon, rng):
    verb = rng.choice(VERB + [0, 12, 17, 25, 60, 1000])
    own = rng.random() < 0.7
    lg, h = new_logger() if rng.random() < 0.6 else (None, None)
    saved = output.verbosity, output.logger
    if own:
        obj = Output(verb, lg) if rng.random() < 0.5 else Output()
        if obj.verbosity != verb:
            mon.eq(obj.verbosity, 30, "default verbosity", "default")
            mon.count("default-verbosity")
            obj.set_verbosity(rng.choice([10, 50]))
            if rng.random() < 0.3:
                obj.set_verbosity()
                mon.eq(obj.verbosity, 30, "set_verbosity() without level", "default")
                verb = 30
            else:
                obj.set_verbosity(verb)
        obj.logger = lg
    else:
        obj = output
        obj.set_verbosity(verb)
        obj.logger = lg
    try:
        for _ in range(rng.randint(1, 8)):
            if rng.random() < 0.15:
                verb = rng.choice(VERB)
                obj.set_verbosity(verb)
            name = rng.choice(list(LEVELS))
            lev = LEVELS[name]
            msg = message(rng)
            wrap = rng.random() < 0.75
            indent = rng.choice(["", "", " ", "    ", "* "])
            kw = {}
            if not wrap or rng.random() < 0.3:
                kw["wrap"] = wrap
            if indent or rng.random() < 0.3:
                kw["indent"] = indent
            if indent:
                mon.count("indented")
            if "\n" in msg:
                mon.count("several-lines")
            mon.seen(name, msg, verb)
            if h:
                h.got.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                getattr(obj, name)(msg, **kw)
            out = buf.getvalue()
            mon.count("assertions")
            what = "%s(%r, %r) at verbosity %s" % (name, msg, kw, verb)
            if lev >= verb:
                mon.count("printed")
                r = render_ok(mon, msg, out, wrap, indent, aoutput.WIDTH)
                if r:
                    mon.violate("%s printed %r: %s" % (what, out, r), "print")
            else:
                mon.count("silent")
                if out:
                    mon.violate("%s printed %r" % (what, out), "silent")
            mon.eq(obj.verbosity, verb, "verbosity after " + what, "verbosity")
            if h:
                mon.count("logged")
                if len(h.got) != 1:
                    mon.violate("%s: %d log records" % (what, len(h.got)), "log")
                lv, text = h.got[0]
                if lv != LOGLEVEL[lev]:
                    mon.violate("%s logged at level %s" % (what, lv), "log-level")
                a = squash(msg)
                b = squash(text)
                if b != a and not (lev >= verb and squash("".join(ln[len(indent):] if ln.startswith(indent) else ln for ln in text.split("\n"))) == a):
                    mon.violate("%s logged as %r" % (what, text), "log-text")
    finally:
        output.set_verbosity(saved[0])
        output.logger = saved[1]


def norm(r):
    if isinstance(r, list):
        return [tuple(sorted(int(x) for x in c)) for c in r]
    if isinstance(r, dict):
        return sorted((k, bool(v)) for k, v in r.items())
    return r


def attempt(f):
    random.seed(99)
    try:
        return ("ok", norm(f()))
    except GurobiError as e:
        if licence(e):
            raise Skip("licence")
        return ("error", type(e).__name__, str(e))
    except (Violation, Skip, KeyboardInterrupt):
        raise
    except BaseException as e:
        return ("error", type(e).__name__, str(e))


def observed(mon, f, verb, use_logger):
    """run f at a verbosity; returns outcome; monitors stdout, logger and the setting"""
    calls = []
    orig = {}
    cls = type(output)
    lg, h = new_logger() if use_logger else (None, None)
    for name in LEVELS:
        orig[name] = getattr(output, name)

        def wrapper(msg, wrap=True, indent="", _n=name):
            calls.append((LEVELS[_n], msg, indent, output.verbosity))
            return orig[_n](msg, wrap=wrap, indent=indent)
        setattr(output, name, wrapper)
    before = output.verbosity, output.logger
    output.set_verbosity(verb)
    output.logger = lg
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            r = attempt(f)
        after = output.verbosity
        loggr = output.logger
    finally:
        for name in LEVELS:
            delattr(output, name)
        output.set_verbosity(before[0])
        output.logger = before[1]
    return r, after, loggr is lg, calls, buf.getvalue(), (h.got if h else None)


def run_op(mon, case, f, desc, exact, full=None, expect=None):
    rng = random.Random(case["s"] + 1)
    base = None
    levels = [50] + rng.sample(VERB[1:], 3)
    if 15 not in levels and rng.random() < 0.7:
        levels[-1] = 15
    mon.seen(desc)
    for verb in levels:
        for use_logger in ((False, True) if verb in (15, 5) else (rng.random() < 0.5,)):
            r, after, same_logger, calls, out, recs = observed(mon, f, verb, use_logger)
            mon.count("assertions")
            what = "%s at verbosity %s%s" % (desc, verb, ", with a logger" if use_logger else "")
            if r[0] == "error":
                mon.count("failed-alike")
            if after != verb:
                mon.violate("%s: verbosity is %s afterwards" % (what, after), "verbosity")
            if not same_logger:
                mon.violate("%s: logger replaced" % what, "logger")
            if base is None:
                base = r
            elif r != base:
                ok = False
                if not exact and r[0] == "ok" == base[0] and isinstance(r[1], list) and full is not None:
                    fs = attempt(full)
                    ok = fs[0] == "ok" and len(r[1]) == len(base[1]) and set(r[1]) | set(base[1]) <= set(fs[1])
                if not ok:
                    mon.violate("%s: %r, but %r at verbosity %s" % (what, r, base, levels[0]), "result")
            shown = [c for c in calls if c[0] >= c[3]]
            want = "".join(squash(c[1]) for c in shown)
            # indentation used by the library is blank
            if squash(out) != want:
                mon.violate("%s: printed %r, messages due are %r" % (what, out[:1500], [c[1] for c in shown][:40]), "printed")
            if any(c[0] >= verb for c in calls) != bool(out) and not any(c[3] != verb for c in calls):
                mon.violate("%s: printed %r" % (what, out[:500]), "printed")
            if verb == 15 and out:
                mon.count("details-printed")
            for ln in out.split("\n"):
                if len(ln) > aoutput.WIDTH and " " in ln.strip() and not any(ln.strip() in c[1] for c in calls):
                    mon.violate("%s: line %r too long" % (what, ln), "width")
            if recs is not None:
                mon.count("log-records", len(recs))
                if [x[0] for x in recs] != [LOGLEVEL[c[0]] for c in calls]:
                    mon.violate("%s: log levels %r for messages of level %r" % (what, [x[0] for x in recs], [c[0] for c in calls]), "log-level")
                if [squash(x[1]) for x in recs] != [squash(c[1]) for c in calls]:
                    mon.violate("%s: log records differ from the messages" % what, "log-text")
    if expect == "ok" and base[0] == "error":
        mon.violate("%s: raised %r" % (desc, base), "crash")
    return base


def run_case(case, mon):
    kind = case["kind"]
    rng = random.Random(case["s"])
    mon.count("op:" + kind)
    if kind == "message":
        return do_message(mon, rng)
    inst, rule = case["inst"], case["rule"]
    k = inst["k"]
    R = abcrules.Rule(rule)
    us = [a for a in algs(rule) if applicable(rule, a, inst)]
    prof = profile(inst, case["s"])
    if kind in ("rule", "fail", "fault"):
        alg = rng.choice(us)
        prof = intweights(prof, rule, alg)
    if kind == "rule":
        res = rng.choice(R.resolute_values)
        if not res and not irresolute_ok(rule, inst, 60):
            if True not in R.resolute_values:
                raise Skip("many-universes")
            res = True
        kw = {"resolute": res, "algorithm": alg}
        if not res and rng.random() < 0.2:
            kw["max_num_of_committees"] = rng.choice([1, 2])
        mon.count("rule:" + rule)
        solver = alg in ("gurobi", "mip-cbc", "ortools-cp")
        exact = not solver or (not res and "max_num_of_committees" not in kw)
        run_op(mon, case, lambda: abcrules.compute(rule, prof, k, **kw), "%s %r on %s" % (rule, kw, show(inst)), exact,
               full=lambda: abcrules.compute(rule, prof, k, resolute=False, algorithm=alg), expect="ok")
    elif kind in ("check", "analysis"):
        com = rng.sample(range(inst["m"]), rng.randint(1, inst["m"])) if rng.random() < 0.6 else None
        if com is None:
            com = sorted(abcrules.compute("seqphragmen" if rng.random() < 0.5 else "av", prof, k)[0])
        if kind == "check":
            p = PROPS[rng.randrange(len(PROPS))]
            mon.count("check:" + p)
            f = getattr(properties, CHECKS[p])
            a = {}
            if p in ("jr", "pjr", "ejr", "fjr") and rng.random() < 0.3:
                a["quota"] = rng.choice([1, 2, 1.5, len(prof)])
            if p not in ("jr", "ejr+", "priceability", "stable-priceability") and rng.random() < 0.5:
                a["algorithm"] = rng.choice(["brute-force", "gurobi"])
            if p in ("ejr+", "priceability", "stable-priceability", "core", "pareto") and "quota" in a:
                a.pop("quota")
            run_op(mon, case, lambda: f(prof, com, **a), "%s(%s, %r) on %s" % (CHECKS[p], com, a, show(inst)), True, expect=None if "quota" in a else "ok")
        else:
            run_op(mon, case, lambda: properties.full_analysis(prof, com), "full_analysis(%s) on %s" % (com, show(inst)), True, expect="ok")
    elif kind == "fail":
        res = rng.choice(R.resolute_values)
        bad = rng.choice(["k0", "kbig", "alg", "mode", "limit", "expected", "property", "committee", "analysis"])
        kw = {"resolute": res, "algorithm": alg}
        kk = k
        if bad == "k0":
            kk = 0
        elif bad == "kbig":
            kk = inst["m"] + 1
        elif bad == "alg":
            kw["algorithm"] = "nonsense"
        elif bad == "mode":
            kw["resolute"] = not res if not res in R.resolute_values or len(R.resolute_values) == 1 else "both"
        elif bad == "limit":
            kw["max_num_of_committees"] = 0
        elif bad == "expected":
            kw["result"] = [set(range(inst["m"])) | {0}, set()]
        if bad in ("property", "committee", "analysis"):
            f = {"property": lambda: properties.check("nonsense", prof, [0]),
                 "committee": lambda: properties.check(PROPS[case["s"] % 9], prof, [inst["m"] + 3]),
                 "analysis": lambda: properties.full_analysis(prof, [0, inst["m"] + 2])}[bad]
            run_op(mon, case, f, "%s on %s" % (bad, show(inst)), True)
        else:
            if bad == "expected" and not kw["resolute"] and not irresolute_ok(rule, inst, 60):
                raise Skip("many-universes")
            run_op(mon, case, lambda: abcrules.compute(rule, prof, kk, **kw), "%s (%s) k=%s %r on %s" % (rule, bad, kk, kw, show(inst)), True)
    elif kind == "fault":
        at = rng.choice([1, 1, 2, 3])
        com = rng.sample(range(inst["m"]), min(k, inst["m"]))
        solver_algs = [a for a in us if a in ("gurobi", "mip-cbc", "ortools-cp")]
        if solver_algs and rng.random() < 0.5:
            a = rng.choice(solver_algs)
            res = rng.choice(R.resolute_values)
            g, desc = (lambda: abcrules.compute(rule, prof, k, resolute=res, algorithm=a)), "%s %s resolute=%s" % (rule, a, res)
            if not res and not irresolute_ok(rule, inst, 60):
                raise Skip("many-universes")
        elif rng.random() < 0.6:
            g, desc = (lambda: properties.full_analysis(prof, com)), "full_analysis(%s)" % com
        else:
            p = rng.choice(["pareto", "pjr", "ejr", "fjr", "core", "priceability"])
            g, desc = (lambda: properties.check(p, prof, com)), "check(%s, %s)" % (p, com)

        def f():
            Faults.reset(at, "raise")
            try:
                return g()
            finally:
                Faults.reset()
        run_op(mon, case, f, "%s with a solver failure at call %d on %s" % (desc, at, show(inst)), True)
