#!/usr/bin/env python3
"""Decides one property: check.py Cnn

Builds the harness against /repo, lets TLC check the model, runs scenarios on
the real code and lets TLC validate every recorded trace against the property's
automaton. Exit 0: held; 1: broken; 2: the check itself could not be completed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan  # noqa: E402
import scen  # noqa: E402

PROP = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work", PROP)
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(EVID, "replay", PROP)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
START = time.time()


def fail(msg):
    print("ERROR property=%s %s" % (PROP, msg))
    sys.exit(2)


def note(msg):
    print("[%5.1fs] %s" % (time.time() - START, msg), flush=True)


def run(cmd, env=None, cwd=None, out=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        fail("timed out: %s" % " ".join(cmd)[:200])
    txt = p.stdout.decode("utf-8", "replace")
    if out:
        with open(out, "w") as f:
            f.write(txt)
    return p.returncode, txt


def goenv():
    rc, txt = run(["bash", "-c", ". %s/env.sh && env" % ROOT])
    if rc:
        fail("env.sh: " + txt)
    return dict(l.split("=", 1) for l in txt.splitlines() if "=" in l)


def build():
    env = goenv()
    exe = os.path.join(WORK, "harness")
    args = ["go", "build", "-o", exe]
    if PROP in plan.RACE and TIER in plan.RACE[PROP]:
        args.append("-race")
    rc, txt = run(args + ["."], env=env, cwd=os.path.join(ROOT, "harness"), timeout=600)
    if rc:
        fail("the harness does not build against /repo:\n" + txt[-3000:])
    return exe


def tlc(name, module, cfg, env=None, extra=(), workers=8, heap="8g", timeout=840):
    """Runs TLC in its own directory and returns its output."""
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "out.txt")
    cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC",
           "-DTLA-Library=" + ":".join([SPEC, os.path.join(SPEC, "props")]),
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    rc, txt = run(cmd, env=env, cwd=d, out=out, timeout=timeout)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return rc, txt


COUNT = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", re.M)


def counts(txt):
    m = COUNT.findall(txt)
    return tuple(int(x) for x in m[-1]) if m else None


def check_model(mc):
    """Checks the property on every behaviour of the specification within the bounds of
    one world, and turns those behaviours into scenarios for the real code."""
    name = "mc-" + mc["name"]
    d = os.path.join(WORK, name)
    os.makedirs(d)
    sub = dict(mc, prop=PROP)
    with open(os.path.join(SPEC, mc["module"] + ".tla.in")) as f:
        mod = re.sub(r"@([A-Z]+)@", lambda m: str(sub[m.group(1).lower()]), f.read())
    with open(os.path.join(d, mc["module"] + ".tla"), "w") as f:
        f.write(mod)
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write("SPECIFICATION MSpec\nCONSTANT World = \"%s\"\nCONSTANT Budget <- Bounds\n"
                "INVARIANT Holds\nINVARIANT Live\nINVARIANT Export\nCHECK_DEADLOCK FALSE\n" % mc["world"])
    rc, txt = tlc(name, mc["module"] + ".tla", "MC.cfg", workers=3, heap="6g")
    c = counts(txt)
    if rc != 0 or c is None or c[2] != 0:
        fail("model %s: TLC ended with %d\n%s" % (mc["name"], rc, txt[-3000:]))
    path = os.path.join(WORK, mc["name"] + ".scen")
    total, kept = scen.export(txt, mc["world"], mc["mode"], path, mc["replay"], SEED)
    if not kept:
        fail("model %s: no behaviours" % mc["name"])
    b = {"name": "spec/" + mc["world"], "mode": mc["mode"], "in": path}
    return c, b, total


REPORT = re.compile(r'^"(BROKEN|KNOWN) (.*)"$', re.M)


def validate(name, traces, expect):
    """Validates the traces of one file; expect is the number of states if all are accepted."""
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(SPEC, "Validate.tla.in")) as f:
        mod = f.read().replace("@PROP@", PROP)
    with open(os.path.join(d, "Validate.tla"), "w") as f:
        f.write(mod)
    with open(os.path.join(d, "Validate.cfg"), "w") as f:
        f.write("SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n")
    rc, txt = tlc(name, "Validate.tla", "Validate.cfg", env={"TRACES": traces})
    c = counts(txt)
    broken, known = {}, {}
    for kind, js in REPORT.findall(txt):
        o = json.loads(js.replace('\\"', '"').replace("\\\\", "\\"))
        if kind == "BROKEN":
            broken[o["id"]] = o
        else:
            for k in o["what"]:
                known.setdefault(k, []).append(o["id"])
    if rc != 0 or c is None or c[2] != 0:
        fail("validation: TLC ended with %d\n%s" % (rc, txt[-3000:]))
    if not broken and c[1] != expect:
        fail("validation: %d states instead of %d: traces were not consumed" % (c[1], expect))
    return c, broken, known


def save_replay(o, batch, line):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, re.sub(r"[^A-Za-z0-9]+", "-", o["id"]) + ".json")
    with open(path, "w") as f:
        json.dump({"property": PROP, "rules": o["what"], "event": o["at"], "batch": batch, "seed": SEED,
                   "trace": json.loads(line)}, f, indent=1)
    return path


def main():
    if PROP not in plan.PLAN:
        fail("unknown property")
    shutil.rmtree(WORK, ignore_errors=True)
    shutil.rmtree(REPLAY, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, PROP + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    p = plan.PLAN[PROP]

    exe = build()
    note("harness built")

    states = transitions = 0
    models = []
    batches = []
    mcs = list(plan.models(PROP, TIER))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        checked = list(pool.map(check_model, mcs))
    for mc, ((g, d, _), b, total) in zip(mcs, checked):
        states += d
        transitions += g
        models.append({"model": mc["name"], "bounds": mc["bounds"], "states": d, "transitions": g, "behaviours": total})
        batches.append(b)
        note("model %s: %d states, %d behaviours" % (mc["name"], d, total))

    # Run the real code.
    files, cur, curn = [], [], 0
    traces = events = stuck = crashes = overflow = 0
    broken_any = []
    samples = []
    batches += plan.batches(PROP, TIER)
    for i, b in enumerate(batches):
        out = os.path.join(WORK, "traces-%d.ndjson" % i)
        cmd = [exe, "-prop", PROP, "-alphabet", os.path.join(SPEC, "alphabet.json"), "-out", out, "-seed", str(b.get("seed", SEED))]
        for k in ("mode", "profile", "n", "in"):
            if k in b:
                cmd += ["-" + k, str(b[k])]
        if b.get("isolate"):
            cmd.append("-isolate")
        rc, txt = run(cmd, env=goenv(), timeout=800)
        if rc and re.search("^(panic|fatal error): ", txt, re.M) and "harness: " not in txt and not b.get("isolate"):
            # A scenario has brought the process down: find out which.
            rc, txt = run(cmd + ["-isolate"], env=goenv(), timeout=800)
        if rc:
            fail("harness ended with %d on %s:\n%s" % (rc, json.dumps(b), txt[-3000:]))
        st = json.loads(txt.strip().splitlines()[-1])
        traces += st["scenarios"]
        events += st["projected"]
        stuck += st["stuck"]
        crashes += st["crashes"]
        overflow += st["overflow"]
        b["stats"] = st
        files.append((out, b))
        note("%s: %d traces, %d events" % (b["name"], st["scenarios"], st["projected"]))

    # Combine them into files of bounded size.
    groups, size, lines = [], 0, None
    limit = 450000
    index = {}
    for out, b in files:
        with open(out) as f:
            for l in f:
                o = json.loads(l)
                if lines is None or size > limit:
                    path = os.path.join(WORK, "all-%d.ndjson" % len(groups))
                    lines = open(path, "w")
                    groups.append([path, 0, lines])
                    size = 0
                lines.write(l)
                size += len(o["ev"]) + 1
                groups[-1][1] += len(o["ev"]) + 1
                index[o["id"]] = (b, path)
                if len(samples) < 2 and 5 < len(o["ev"]) < 60:
                    samples.append(o)
        os.remove(out)
    for g in groups:
        g[2].close()

    consumed = 0
    knowns = {}
    for i, (path, n, _) in enumerate(groups):
        c, broken, known = validate("val-%d" % i, path, n)
        consumed += c[1]
        for k, ids in known.items():
            knowns.setdefault(k, []).extend(ids)
        if broken:
            with open(path) as f:
                for l in f:
                    o = json.loads(l)
                    if o["id"] in broken:
                        x = broken[o["id"]]
                        broken_any.append((x, save_replay(x, index[o["id"]][0], l)))
            break
    note("validated %d events" % (consumed - traces if not broken_any else consumed))

    known_ids = load_known()
    unlisted = [k for k in knowns if (PROP, k) not in known_ids]
    for k in sorted(knowns):
        if k not in unlisted:
            print("KNOWN-FINDING: property=%s %s %s (%d times)" % (PROP, k, known_ids[(PROP, k)], len(knowns[k])))

    evidence = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "models": models,
            "traces_validated_against_impl": traces,
            "events_validated": events,
            "batches": [{k: b[k] for k in ("name", "stats") if k in b} for b in batches],
            "samples": samples,
        },
        "assumptions": p.get("assumptions", []) + plan.ASSUMPTIONS,
        "wall_s": round(time.time() - START, 2),
        "violations": len(broken_any),
    }
    if not models:
        evidence["coverage"]["states"] = consumed
        evidence["coverage"]["transitions"] = consumed - traces
    with open(ev, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if unlisted:
        x = unlisted[0]
        print("VIOLATION property=%s replay=%s" % (PROP, "none: unlisted finding " + x))
        sys.exit(1)
    if broken_any:
        for x, path in broken_any[:5]:
            print("  %s: event %d of %s: %s" % (PROP, x["at"], x["id"], "; ".join(x["what"])))
        print("VIOLATION property=%s replay=%s" % (PROP, broken_any[0][1]))
        sys.exit(1)
    if stuck or crashes:
        fail("%d operations hung and %d processes crashed" % (stuck, crashes))
    shutil.rmtree(WORK, ignore_errors=True)
    note("held")


def load_known():
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"^known: property=(\S+) (\S+) (.*)$", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


if __name__ == "__main__":
    main()
