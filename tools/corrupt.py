#!/usr/bin/env python3
"""How much of a trace does an automaton insist on? corrupt.py Cnn [traces per batch]

Records traces from the real code, corrupts each of them in many ways (an event
is dropped, repeated or swapped with the next one) and lets TLC validate the
corrupted traces. Prints, per kind of event, how many corruptions were noticed.
This is not a check: it shows what the traces are bound to.
"""
import collections
import json
import os
import random
import sys

import check
import plan

# Events that are part of the scenario, which the harness itself causes.
GIVEN = {"app", "begin", "step", "sel"}


def main():
    per = int(sys.argv[2]) if len(sys.argv) > 2 else 6
    os.makedirs(check.WORK, exist_ok=True)
    exe = check.build()
    rnd = random.Random(check.SEED)
    out = os.path.join(check.WORK, "t.ndjson")
    bad = os.path.join(check.WORK, "bad.ndjson")
    total, what = 0, {}
    with open(bad, "w") as f:
        for b in plan.batches(check.PROP, "quick"):
            cmd = [exe, "-prop", check.PROP, "-alphabet", os.path.join(check.SPEC, "alphabet.json"), "-out", out,
                   "-seed", str(check.SEED), "-mode", b["mode"], "-profile", b["profile"], "-n", str(per)]
            rc, txt = check.run(cmd, env=check.goenv())
            if rc:
                check.fail(txt)
            for l in open(out):
                o = json.loads(l)
                ev = o["ev"]
                if len(ev) > 250:
                    continue
                idx = [j for j in range(1, len(ev)) if ev[j]["e"] not in GIVEN]
                rnd.shuffle(idx)
                for j in idx[:25]:
                    for how in ("drop", "twice", "swap"):
                        n = list(ev)
                        if how == "drop":
                            del n[j]
                        elif how == "twice":
                            n.insert(j, ev[j])
                        elif j + 1 < len(ev) and ev[j] != ev[j + 1] and ev[j + 1]["e"] not in GIVEN:
                            n[j], n[j + 1] = ev[j + 1], ev[j]
                        else:
                            continue
                        i = "%s|%d|%s" % (o["id"], j, how)
                        k = ev[j]["e"] + ":" + str(ev[j].get("f", ev[j].get("w", ev[j].get("o", ""))))
                        what[i] = (how, k, o["id"], j)
                        f.write(json.dumps({"id": i, "ev": n}) + "\n")
                        total += len(n) + 1
    _, broken, _ = check.validate("corrupt", bad, total)
    c = collections.defaultdict(lambda: [0, 0])
    for i, (how, k, _, _) in what.items():
        c[how, k][1] += 1
        c[how, k][0] += i in broken
    for (how, k), (a, n) in sorted(c.items()):
        print("%-6s %-16s %4d of %4d" % (how, k, a, n))
    print("%d of %d corruptions noticed" % (len(broken), len(what)))


main()
