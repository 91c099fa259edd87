"""seed.py build SPEC.py...   : writes seeded/<id>/ from specs (variables ID, PROP, EDITS, NEEDS, BREAKS, DEMO), checks the demo
   seed.py tests ID...        : runs the repository's stable tests with the change (scratch copy)
   seed.py check ID... [--tier t] [--prop Cxx] : runs the property's check against a scratch copy with the change
Scratch copies live under /tmp and are removed."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def copy():
    d = tempfile.mkdtemp(prefix="seedwt.")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "HEAD", "--", "."])
    return d


def drop(d):
    assert d.startswith("/tmp/seedwt.")
    shutil.rmtree(d)


def demo(sid, d):
    env = dict(os.environ); env.pop("PYTHONPATH", None)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(["bash", os.path.join(V, "seeded", sid, "demo.sh")], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def build(spec):
    s = runpy.run_path(spec)
    sid = s["ID"]
    d = copy()
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(d, "abcvoting", f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(sid, "EDIT matches", n, "times:", old[:80]); return False
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: behaviour as it should be\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n' + s.get("ENV", "") + 'exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        c1, o1 = demo(sid, d)
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
        c0, o0 = demo(sid, d)
        ok = c0 == 0 and c1 != 0
        print(sid, "demo", "ok" if ok else "BAD unchanged=%s patched=%s\n%s\n%s" % (c0, c1, o0, o1))
        return ok
    finally:
        drop(d)


def patched(sid):
    d = copy()
    subprocess.check_call(["git", "-C", d, "apply", os.path.join(V, "seeded", sid, "patch.diff")])
    return d


def tests(sid):
    d = patched(sid)
    try:
        env = dict(os.environ, PYTHONPATH=d + ":/opt/vp/plugins", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", HOME="/root")
        p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_gurobi_banner", "-n", "8", "--timeout=400", "-x" if "-x" in sys.argv else "-q",
                            "--continue-on-collection-errors", "-m", "not mipgurobi and (not gurobipy or not slow) and not veryslow", "tests"],
                           cwd=d, env=env, capture_output=True, text=True, timeout=1500)
        fails = sorted(set(re.findall(r"^(?:FAILED|ERROR) (\S+)", p.stdout, re.M)))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base
        print(sid, "tests rc", p.returncode, "failures", len(fails), fails[:4], p.stdout.strip().split("\n")[-1][-150:])
        return p.returncode == 0
    finally:
        drop(d)


def check(sid, tier="quick", prop=None):
    meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    d = patched(sid)
    try:
        env = dict(os.environ, MON_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
        res = []
        for pr in (prop.split(",") if prop else [meta["property"]]):
            p = subprocess.run(["bash", os.path.join(V, "mon/check.sh"), pr, tier], cwd=V, env=env, capture_output=True, text=True)
            m = re.search(r"mech=(.*)", p.stdout)
            w = json.load(open(os.path.join(V, "evidence", pr + ".json")))
            res.append("%s:%s(%s,%d cases,%.0fs)" % (pr, {0: "MISSED", 1: "caught"}.get(p.returncode, "NO VERDICT rc=%d" % p.returncode), m.group(1)[:40] if m else "", w["coverage"]["evaluations"], w["wall_s"]))
            if p.returncode not in (0, 1):
                print(p.stdout[-600:], p.stderr[-600:])
        print(sid, " ".join(res), flush=True)
    finally:
        drop(d)


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    tier = "quick"; prop = None
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]; a.remove(tier)
    if "--prop" in sys.argv:
        prop = sys.argv[sys.argv.index("--prop") + 1]; a.remove(prop)
    if sys.argv[1] == "build":
        for x in a: build(x)
    elif sys.argv[1] == "tests":
        for x in a: tests(x)
    elif sys.argv[1] == "check":
        for x in a: check(x, tier, prop)
