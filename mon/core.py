"""Runner of the runtime monitors: workloads in worker processes, verdicts, evidence, replays.

A check module (mon/checks/cNN.py) provides
    ID, RULE (text: how cases are made, what makes one non-trivial), ASSUMPTIONS (list)
    PLAN = {"quick": n, "thorough": n}         number of cases
    REQUIRED = [event, ...]                    monitor events that must be seen (else no verdict)
    gen_case(rng, index, tier) -> JSON-able    the workload, a pure function of the seed
    run_case(case, mon)                        runs the real code, monitors observe
Verdicts: exit 0 held on everything observed, exit 1 violation, exit 2 no verdict.
"""
import collections, hashlib, importlib, io, json, multiprocessing as mp, os, random, select
import shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MON_REPO", "/repo")
NWORKERS = int(os.environ.get("MON_WORKERS", "8"))
CPU_LIMIT = float(os.environ.get("MON_CASE_CPU", "150"))   # CPU seconds: a case of pure Python that long hangs
SLOW_LIMIT = float(os.environ.get("MON_SLOW_CPU", "60"))    # CPU seconds after which a case with a solver is left undecided
WALL_LIMIT = float(os.environ.get("MON_CASE_WALL", "420"))  # wall seconds: no verdict on that case
BUDGET = {"quick": 240.0, "thorough": 1500.0}
MAXVIOL = 6


class Violation(Exception):
    """raised by mon.violate to end the current case"""


class Skip(Exception):
    """the case is outside the decided domain (e.g. licence limit, oracle too large)"""


class Mon:
    """per-worker collector of what the monitors observed"""

    def __init__(self, pid):
        self.pid = pid
        self.events = collections.Counter()
        self.keys = set()
        self.viol = []
        self.evals = 0
        self.samples = []
        self.case = None
        self.fatal = True

    def count(self, ev, n=1):
        self.events[ev] += n

    def seen(self, *key):
        """record a distinct non-trivial observation"""
        self.keys.add(hashlib.md5(repr(key).encode()).digest()[:10])

    def violate(self, msg, mech="", stop=True):
        self.viol.append({"case": self.case, "msg": str(msg)[:3000], "mech": mech})
        if stop:
            raise Violation(msg)

    def check(self, cond, msg, mech=""):
        self.count("assertions")
        if not cond:
            self.violate(msg() if callable(msg) else msg, mech)

    def eq(self, got, want, what, mech=""):
        self.count("assertions")
        if not (got == want):
            self.violate("%s: got %r, expected %r" % (what, got, want), mech)


def _lib_frames(tb):
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(
        os.path.join(os.path.realpath(REPO), "abcvoting"))]


def _crash(mon, case, e):
    """a call that must succeed raised, or its outcome is not of the kind the monitor can read (e.g. None, a missing attribute)"""
    lib = _lib_frames(e.__traceback__)
    mon.viol.append({"case": case, "mech": ("crash:" if lib else "unreadable:") + type(e).__name__,
                     "msg": "%s %r\n%s" % ("a valid call raised" if lib else "an outcome could not be read:", e, traceback.format_exc()[-1800:])})


def _generate(mod, pid, seed, idx, tier):
    return mod.gen_case(random.Random("%s|%s|%s|%d" % (seed, pid, "c", idx)), idx, tier)


def run_one(mod, mon, case):
    mon.case = case
    mon.evals += 1
    try:
        mod.run_case(case, mon)
        mon.count("cases_decided")
    except Violation:
        pass
    except Skip as e:
        mon.count("skip:" + str(e))
    except (MemoryError, OSError) as e:
        if not _lib_frames(e.__traceback__):
            return traceback.format_exc()
        _crash(mon, case, e)
    except Exception as e:  # noqa
        _crash(mon, case, e)
    return None


def _worker(modname, pid, tier, seed, conn, wid):
    os.environ["OMP_NUM_THREADS"] = "1"
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    mod = importlib.import_module(modname)
    mon = Mon(pid)
    if hasattr(mod, "worker_init"):
        mod.worker_init(mon)
    while True:
        msg = conn.recv()
        if msg is None:
            break
        idx = msg
        err = None
        case = None
        try:
            case = _generate(mod, pid, seed, idx, tier)
            text = json.dumps(case)
        except (MemoryError, OSError):
            err = traceback.format_exc()
        except Exception as e:  # a workload made with the code's help (e.g. an elected committee) could not be made
            case = None
            _crash(mon, {"generate": idx, "tier": tier}, e)
        else:
            conn.send(("case", idx, text))
            random.seed("%s|%d" % (seed, idx))
            t0 = time.time()
            err = run_one(mod, mon, case)
            dt = time.time() - t0
        conn.send(("done", idx, {
            "events": dict(mon.events), "keys": list(mon.keys), "viol": mon.viol,
            "evals": mon.evals, "err": err, "dt": dt if case is not None else 0}))
        mon.events.clear(); mon.keys.clear(); mon.viol.clear(); mon.evals = 0
    conn.close()
    os._exit(0)


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class W:
    pass


def run(modname, pid, tier, seed, only=None, n=None):
    mod = importlib.import_module(modname)
    total = n or mod.PLAN[tier]
    budget = float(os.environ.get("MON_BUDGET", getattr(mod, "BUDGET", BUDGET)[tier]))
    t0 = time.time()
    events = collections.Counter(); keys = set(); viols = []; errs = []; samples = []
    evals = 0; inconclusive = []; slow = []
    kviols = {}
    knownm = {k["mech"] for k in known_findings(pid)}
    ctx = mp.get_context("fork")
    queue = list(range(total)) if only is None else list(only)
    queue.reverse()
    workers = {}

    def spawn(wid):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, pid, tier, seed, b, wid), daemon=True)
        p.start(); b.close()
        w = W(); w.p = p; w.c = a; w.idx = None; w.case = None; w.t = 0; w.cpu0 = 0; w.id = wid
        workers[a] = w
        return w

    def feed(w):
        stop = not queue or time.time() - t0 > budget or len(viols) >= MAXVIOL or len(errs) >= 5
        if stop:
            try:
                w.c.send(None)
            except Exception:
                pass
            w.p.join(5)
            if w.p.is_alive():
                w.p.kill()
            del workers[w.c]
            w.c.close()
            return
        w.idx = queue.pop(); w.case = None; w.t = time.time(); w.cpu0 = _cpu(w.p.pid)
        w.c.send(w.idx)

    for wid in range(min(NWORKERS, len(queue))):
        feed(spawn(wid))
    lastpoll = time.time()
    while workers:
        ready, _, _ = select.select(list(workers), [], [], 1.0)
        for c in ready:
            w = workers.get(c)
            if w is None:
                continue
            try:
                m = c.recv()
            except (EOFError, ConnectionResetError, OSError):
                w.p.join(5)
                code = w.p.exitcode
                case = json.loads(w.case) if w.case else None
                if code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS):
                    viols.append({"case": case, "mech": "native-crash", "msg": "the process died with signal %d" % -code})
                else:
                    inconclusive.append("worker ended with code %s on case %s" % (code, w.idx))
                del workers[c]
                feed(spawn(w.id))
                continue
            if m[0] == "case":
                w.case = m[2]
                if len(samples) < 4 or (len(samples) < 8 and m[1] % 37 == 0):
                    samples.append(m[2][:1500])
            else:
                d = m[2]
                events.update(d["events"]); keys.update(d["keys"])
                for v in d["viol"]:
                    if v["mech"] in knownm:
                        kviols.setdefault(v["mech"], v)
                        events["known-finding:" + v["mech"]] += 1
                    else:
                        viols.append(v)
                evals += d["evals"]
                slow.append((round(d["dt"], 2), m[1]))
                if d["err"]:
                    errs.append((m[1], w.case, d["err"]))
                feed(w)
        if time.time() - lastpoll > 2:
            lastpoll = time.time()
            for c, w in list(workers.items()):
                if w.case is None and time.time() - w.t < 60:
                    continue
                used = _cpu(w.p.pid) - w.cpu0
                case = json.loads(w.case) if w.case else None
                hangs = getattr(mod, "HANG", False)
                if callable(hangs):
                    hangs = case is not None and hangs(case)
                if used > SLOW_LIMIT and not hangs:
                    events["undecided:solver-too-slow"] += 1
                elif used > CPU_LIMIT:
                    viols.append({"case": case, "mech": "hang", "msg": "no result after %.0f CPU seconds" % used})
                elif time.time() - w.t > WALL_LIMIT:
                    inconclusive.append("case %s: no answer after %.0f s wall (%.0f CPU s)" % (w.idx, WALL_LIMIT, used))
                else:
                    continue
                w.p.kill(); w.p.join(5)
                del workers[c]
                feed(spawn(w.id))
    slow.sort(reverse=True)
    return dict(events=events, keys=keys, viols=viols + list(kviols.values()), errs=errs, samples=samples, evals=evals,
                inconclusive=inconclusive, wall=time.time() - t0, planned=total, slow=slow[:5],
                left=len(queue))


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f).get("findings", []) if e["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "mon.checks." + pid.lower()
    mod = importlib.import_module(modname)
    import abcvoting
    if not os.path.realpath(abcvoting.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("ERROR: abcvoting is not imported from %s but %s" % (REPO, abcvoting.__file__))
        return 2
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        mon = Mon(pid)
        if hasattr(mod, "worker_init"):
            mod.worker_init(mon)
        random.seed("%s|%s" % (rec.get("seed"), rec.get("index")))
        case = rec["case"]
        err = None
        if "generate" in case:
            try:
                case = _generate(mod, pid, rec["seed"], case["generate"], case["tier"])
            except Exception as e:
                _crash(mon, case, e)
        if not mon.viol:
            err = run_one(mod, mon, case)
        if err:
            print(err); return 2
        for v in mon.viol:
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
            print("  ", v["msg"])
        print("events:", dict(mon.events))
        return 1 if mon.viol else 0
    n = None
    if "--n" in argv:
        n = int(argv[argv.index("--n") + 1])
    only = None
    if "--only" in argv:
        only = [int(x) for x in argv[argv.index("--only") + 1].split(",")]
    r = run(modname, pid, tier, seed, only=only, n=n)
    known = known_findings(pid)
    new, old = [], collections.OrderedDict()
    for v in r["viols"]:
        for k in known:
            if v["mech"] == k["mech"]:
                old.setdefault(k["mech"], (k, v))
                break
        else:
            new.append(v)
    for mech, (k, v) in old.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    missing = [e for e in getattr(mod, "REQUIRED", []) if not r["events"].get(e)]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": r["evals"], "distinct_nontrivial": len(r["keys"]),
                       "rule": mod.RULE, "samples": [json.loads(s) if len(s) < 1500 else s for s in r["samples"]],
                       "planned_cases": r["planned"], "cases_not_run_time_cap": r["left"],
                       "monitor_events": dict(sorted(r["events"].items())),
                       "slowest_cases_s": r["slow"],
                       "inconclusive_cases": len(r["inconclusive"]),
                       "inconclusive_samples": r["inconclusive"][:3],
                       "required_events_missing": missing},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(r["wall"], 2),
          "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))
    if new:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:3]):
            path = os.path.join(rd, "%s-%s-%d-%d.json" % (pid, tier, seed, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "case": v["case"], "msg": v["msg"], "mech": v["mech"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   mech=%s" % v["mech"])
            print("   " + v["msg"][:1500].replace("\n", "\n   "))
        return 1
    if r["errs"]:
        print("ERROR: %d harness errors; first on case %s\n%s\n%s" % (len(r["errs"]), r["errs"][0][0], str(r["errs"][0][1])[:500], r["errs"][0][2]))
        return 2
    if missing:
        print("NO VERDICT: monitors never observed %s" % missing)
        return 2
    if r["inconclusive"]:
        print("note: %d inconclusive cases, e.g. %s" % (len(r["inconclusive"]), r["inconclusive"][0]))
        if len(r["inconclusive"]) > max(3, r["evals"] // 10):
            return 2
    print("OK property=%s tier=%s cases=%d distinct=%d wall=%.1fs assertions=%d" % (
        pid, tier, r["evals"], len(r["keys"]), r["wall"], r["events"].get("assertions", 0)))
    return 0
