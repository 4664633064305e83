"""Turns behaviours of the specification into scenarios for the harness."""
import json
import random
import re

LINE = re.compile(r'^"SCEN (.*)"$', re.M)


def engine(tr, ops):
    """What the handlers do; tr are the choices of the environment, in order. Operations are added to ops."""
    beh, comp = {}, {}
    applied, ticks, logs = {}, {}, {}

    def script(m, h):
        return beh.setdefault("%s|%s" % (m, h), {"route": "i", "ok": True})

    for e in tr:
        k = e["e"]
        if k == "op":
            o = {"op": e["op"]}
            if e["op"] != "reset":
                o["now"], o["opts"], o["ctx"] = e["now"], e["opts"], e["ctx"]
            if e["op"] == "dispatch":
                o["m"], o["t"], o["bad"] = e["m"], e["t"], e["bad"]
            ops.append(o)
        elif k in ("sob", "cancel"):
            c = {"o": "cancel"} if k == "cancel" else {"o": e["o"], "p": e["p"], "t": e["t"], "bad": e["bad"], "rec": e["re"]}
            if k == "sob" and e["o"] == "sched":
                c["at"] = [e["at"][0] - ops[-1]["now"][0], 0]
            if e["cur"] == "":
                logs.setdefault(e["h"], []).append("!cancel" if k == "cancel" else e["p"])
            else:
                script(e["cur"], e["h"]).setdefault("ops", []).append(c)
        elif k == "cb" and e["w"] == "new":
            if e["nw"]:
                script(e["cur"], e["h"])["new"] = e["nw"]
        elif k == "cb":  # apply, applypanic
            n = applied[e["m"]] = applied.get(e["m"], 0) + 1
            if e["w"] == "applypanic":
                s = beh.setdefault(e["m"] + "|*apply", {})
                s["apply"] = ",".join(([s["apply"]] if "apply" in s else []) + ["panic%d" % n])
        elif e["w"] == "compact":
            c = {"end": "" if e["res"] == "ok" else e["res"]}
            if e["par"]:
                c["logs"] = ["l"] * e["logs"]
                script(e["cur"], e["h"])["comp"] = c
            else:
                n = ticks[e["h"]] = ticks.get(e["h"], 0) + 1
                c["logs"] = logs.pop(e["h"], [])
                comp["%s#%d" % (e["h"], n)] = c
        else:
            s = script(e["cur"], e["h"])
            end = "" if e["res"] == "ok" else e["res"]
            if e["w"] == "route":
                s["route"], s["routeno"], s["routeend"] = e["i"], not e["yes"], end
            elif e["w"] in ("handle", "hev"):
                if e["tok"] != "scope":
                    s["end"] = end
                if e["w"] == "hev":
                    s["ok"] = e["ok"]
            elif e["w"] == "rv":
                s["rv"] = "set" if e["ver"] else end
            elif e["w"] == "close":
                s["close"] = end
    return beh, comp


def scenario(app, tr):
    ops = []
    beh, comp = engine(tr, ops)
    return {"app": app, "ops": ops, "beh": beh, "comp": comp}


def leaf(x, l):
    if x["l"] == l:
        return x
    for k in x["kids"]:
        y = leaf(k, l)
        if y:
            return y


def report(r):
    """What a scripted expectation reports."""
    return {"crit": r["crit"], "out": r["out"], "exp": "\n".join(r["exp"]), "adds": [{"t": a["t"], "s": "\n".join(a["ls"])} for a in r["adds"]],
            "subs": [report(u) for u in r["subs"]], "fails": not r["ok"]}


def reports(x):
    if "rep" in x:
        x["rep"] = report(x["rep"])
    for k in x["kids"]:
        reports(k)


def test(app, tr):
    """A program that uses the test framework."""
    begin, steps, chosen = {}, [], []
    body, cleanups = None, {}
    for e in tr:
        k = e["e"]
        if k == "begin":
            begin = {"cmp": e["cmp"], "opts": e["opts"], "stop": e["stop"]}
            if e["start"]:
                begin["start"] = e["start"]
            if e["icpt"]["n"]:
                begin["icpt"] = e["icpt"]
        elif k == "step":
            st = {"k": e["k"], "acts": e["acts"]}
            for a in st["acts"]:
                if not a["icpt"]["n"]:
                    del a["icpt"]
                for b in a["body"]:
                    if b["k"] == "set":
                        b["d"] = [60, 0]
            if e["k"] == "expect":
                st["x"] = e["x"]
                reports(st["x"])
            steps.append(st)
        elif k == "sel":
            steps.append({"k": "sel", "en": e["en"], "like": e["like"], "names": e["names"]})
        elif k == "ex":
            if e["by"] == "out":
                steps[-1]["m"], steps[-1]["t"] = e["m"], e["t"]
        elif k == "sat":
            if e["w"] == "b":
                body = leaf(steps[-1]["x"], e["l"]).setdefault("sat", [])
            elif e["w"] == "c":
                body = cleanups[e["c"]]
            elif e["w"] == "ask":
                body.append({"o": "ask"})
            elif e["w"] == "op":
                o = {"o": e["o"]}
                if e["o"] == "cleanup":
                    o["c"], o["body"] = e["c"], []
                    cleanups[e["c"]] = o["body"]
                body.append(o)
        else:
            chosen.append(e)
    beh, _ = engine(chosen, [])
    return {"app": app, "begin": begin, "stop": begin.pop("stop"), "steps": steps, "beh": beh}


def conc(_, tr):
    steps = []
    for do, n in tr["steps"]:
        steps.append({"do": do, "n": n})
        if do != "cancel":
            steps.append({"do": "settle", "n": n})
    return {"ops": tr["ops"], "steps": steps}


def loop(_, tr):
    c = tr["cfg"]
    s = {"fn": "scaled", "d": 1000, "num": c["num"], "den": c["den"], "given": True, "start": 0, "opts": c["opts"],
         "rev": False, "tms": [], "pre": c["pre"], "ticks": 0}
    for x in tr["ch"]:
        if "after" in x:
            s["after"] = x["after"]
        else:
            s["ticks"] += 1
            if x["out"] in ("slow", "err", "cancel"):
                s["tms"].append({"at": x["us"], "slow": 700 if x["out"] == "slow" else 0, "end": x["out"].replace("slow", "")})
    if not s["pre"]:
        s["ticks"] += 1
    return s


def blame(_, tr):
    return tr


MODES = {"engine": scenario, "test": test, "conc": conc, "loop": loop, "blame": blame}


def export(txt, world, mode, path, limit, seed):
    """Writes the scenarios in TLC's output; returns how many there are, and how many were kept."""
    seen = set()
    app = json.loads(re.search(r'^"WORLD (.*)"$', txt, re.M).group(1).replace('\\"', '"'))
    for js in LINE.findall(txt):
        tr = json.loads(js.replace('\\"', '"'))
        seen.add(json.dumps(MODES[mode](app, tr), sort_keys=True))
    all_ = sorted(seen)
    if limit and len(all_) > limit:
        all_ = sorted(random.Random(seed).sample(all_, limit))
    with open(path, "w") as f:
        for i, s in enumerate(all_):
            f.write('{"id": "spec/%s/%d", %s\n' % (world, i, s[1:]))
    return len(seen), len(all_)
