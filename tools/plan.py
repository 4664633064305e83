"""What each check runs."""

ASSUMPTIONS = [
    "the harness's handlers do what their script says and record it faithfully",
    "handlers are deterministic functions of the message they are given",
]

RACE = {}


def eng(profile, quick, thorough, **kw):
    return dict(mode="engine", profile=profile, quick=quick, thorough=thorough, **kw)


def tst(profile, quick, thorough, **kw):
    return dict(mode="test", profile=profile, quick=quick, thorough=thorough, **kw)


def mul(profile, quick, thorough, **kw):
    return dict(mode="multi", profile=profile, quick=quick, thorough=thorough, **kw)


def mult(profile, quick, thorough, **kw):
    return dict(mode="multitest", profile=profile, quick=quick, thorough=thorough, **kw)


PLAN = {
    "C01": dict(gen=[eng("wide", 350, 5000), eng("mixed", 500, 8000), eng("err", 200, 4000), eng("skip", 200, 3000), eng("calm", 100, 2000), eng("big", 6, 90)]),
    "C02": dict(gen=[eng("wide", 400, 6000), eng("calm", 200, 4000), eng("time", 250, 4000), eng("mixed", 300, 5000), eng("big", 6, 90)]),
    "C03": dict(gen=[eng("agg", 500, 9000), eng("mixed", 300, 5000), eng("panic", 200, 4000), eng("reset", 100, 3000), eng("big", 5, 75)]),
    "C04": dict(gen=[eng("proc", 500, 9000), eng("mixed", 300, 5000), eng("panic", 200, 4000), eng("time", 150, 3000), eng("big", 5, 75)]),
    "C05": dict(gen=[eng("time", 700, 10000), eng("timecomp", 200, 4000), eng("proc", 300, 5000), eng("mixed", 200, 4000), eng("big", 6, 90)]),
    "C06": dict(gen=[eng("guard", 600, 9000), eng("mixed", 300, 5000), eng("panic", 100, 2000)]),
    "C07": dict(gen=[eng("mixed", 500, 7000), eng("time", 200, 3000), eng("wide", 200, 3000), eng("reset", 150, 2000), dict(mode="ids", profile="", quick=20, thorough=200), eng("big", 4, 60)]),
    "C08": dict(gen=[eng("skip", 600, 9000), eng("mixed", 200, 4000), eng("time", 100, 2000)]),
    "C09": dict(gen=[eng("facts", 500, 7000), eng("mixed", 200, 4000), eng("comp", 250, 4000), eng("skip", 100, 2000), eng("big", 4, 60)]),
    "C10": dict(gen=[eng("agg", 300, 5000), eng("proc", 400, 6000), eng("mixed", 300, 4000), eng("time", 150, 2000), eng("big", 4, 60)]),
    "C11": dict(gen=[eng("err", 700, 9000), eng("mixed", 250, 4000), eng("proj", 200, 4000), eng("comp", 100, 2000), eng("timecomp", 250, 4000)]),
    "C12": dict(gen=[dict(mode="conc", profile="mixed", quick=1500, thorough=20000, isolate=True)]),
    "C13": dict(gen=[eng("reset", 700, 9000), eng("mixed", 200, 3000)]),
    "C14": dict(gen=[eng("proj", 700, 10000), eng("mixed", 200, 4000), eng("comp", 200, 4000), eng("wide", 200, 3000)]),
    "C15": dict(gen=[eng("comp", 700, 9000), eng("proj", 200, 4000), eng("reset", 100, 2000), eng("crash", 200, 3000, isolate=True)]),
    "C16": dict(gen=[tst("clock", 700, 9000), tst("mixed", 300, 5000), tst("flow", 200, 3000)]),
    "C17": dict(gen=[tst("msg", 700, 9000), tst("mixed", 300, 5000), tst("exec", 200, 3000), tst("tree", 100, 2000), tst("storm", 40, 400), tst("big", 25, 400)]),
    "C18": dict(gen=[tst("tree", 800, 10000), tst("mixed", 300, 5000), tst("flow", 300, 4000), tst("storm", 60, 600), tst("big", 20, 300)]),
    "C19": dict(gen=[tst("sat", 900, 12000), tst("mixed", 200, 4000), tst("flow", 100, 2000), tst("storm", 150, 1000), tst("big", 20, 300)]),
    "C20": dict(gen=[tst("exec", 900, 12000), tst("mixed", 200, 4000), tst("flow", 100, 2000), tst("storm", 40, 400)]),
    "C21": dict(gen=[tst("ctx", 150, 3000), tst("flow", 700, 9000), tst("mixed", 300, 5000), tst("exec", 200, 3000), tst("clock", 150, 2000), tst("big", 10, 150)]),
    "C22": dict(gen=[tst("sel", 600, 8000), tst("mixed", 200, 4000)]),
    "C23": dict(gen=[dict(mode="loop", profile="mixed", quick=1200, thorough=12000)]),
    "C24": dict(gen=[tst("why", 900, 12000), tst("msg", 300, 5000), tst("exec", 150, 2000), tst("mixed", 150, 2000), tst("big", 25, 400)]),
    "C26": dict(gen=[eng("mixed", 150, 5000), eng("calm", 20, 1000), eng("wide", 60, 1500), eng("err", 50, 1500), eng("skip", 40, 1500), eng("agg", 40, 2000), eng("proc", 60, 2000), eng("time", 50, 2500), eng("timecomp", 40, 1500), eng("guard", 40, 1500), eng("facts", 30, 800), eng("reset", 40, 1500), eng("proj", 60, 1500), eng("comp", 60, 1500), eng("panic", 50, 1500), eng("big", 2, 30)]),
    "C27": dict(gen=[eng("mixed", 400, 6000), eng("comp", 250, 4000), eng("proj", 150, 3000), eng("err", 200, 3000), eng("time", 100, 2000), tst("exec", 250, 4000), tst("mixed", 150, 3000), dict(mode="loop", profile="mixed", quick=150, thorough=1500), tst("ctx", 200, 3000)]),
    "C28": dict(gen=[mul("mixed", 150, 2000), mul("reset", 60, 1000), mul("time", 60, 1000), mul("comp", 40, 600), mul("proj", 40, 600), mul("agg", 40, 600), mul("proc", 40, 600),
                     mult("mixed", 120, 1500), mult("flow", 80, 1000), mult("exec", 80, 1000), mult("clock", 60, 800), mult("sel", 50, 800), mult("tree", 60, 800), mult("sat", 40, 600), mult("msg", 60, 800)]),
    "C29": dict(gen=[tst("seq-mixed", 60, 3000), tst("seq-clock", 30, 2000), tst("seq-msg", 30, 2000), tst("seq-tree", 30, 2000), tst("seq-sat", 30, 2000), tst("seq-exec", 40, 3000), tst("seq-flow", 60, 3000), tst("seq-sel", 30, 1500), tst("seq-big", 3, 40)]),
    "C30": dict(gen=[eng("mixed", 150, 3000), eng("wide", 100, 2000), eng("facts", 150, 3000), eng("skip", 100, 2000), eng("comp", 100, 2000), eng("time", 100, 2000), eng("panic", 60, 1000),
                     tst("mixed", 200, 4000), tst("flow", 150, 3000), tst("clock", 100, 2000), tst("exec", 100, 2000), tst("sel", 80, 1500), tst("msg", 80, 1500), tst("tree", 100, 2000), tst("sat", 50, 1000), tst("storm", 20, 200)]),
    "C25": dict(gen=[eng("panic", 700, 10000), eng("mixed", 200, 4000), eng("err", 150, 2000), eng("crash", 300, 4000, isolate=True)]),
    "C31": dict(gen=[tst("rep", 500, 8000), tst("tree", 100, 2000), tst("sat", 150, 3000), tst("msg", 100, 2000), tst("mixed", 100, 2000), tst("big", 8, 100)]),
    "C32": dict(gen=[dict(mode="blame", profile="mixed", quick=1500, thorough=20000)]),
}


# The worlds of spec/EngineGen.tla in which a property is checked on the specification,
# with (operations, scope calls) for each tier, and how many of the behaviours are
# replayed in the quick tier.
BOUNDS = {
    "agg": ((2, 3), (3, 4)),
    "aggload": ((3, 2), (4, 3)),
    "proc": ((2, 2), (3, 3)),
    "ticks": ((2, 2), (3, 3)),
    "duecomp": ((3, 2), (4, 3)),
    "chain": ((1, 3), (2, 3)),
    "proj": ((2, 2), (3, 3)),
    "comp": ((1, 2), (2, 2)),
    "cancel": ((2, 2), (3, 2)),
    "skip": ((2, 1), (3, 1)),
    "guard": ((2, 2), (2, 3)),
    # Those of spec/TestGen.tla: steps, and calls of scopes and of SatisfyT.
    "tmsg": ((1, 2), (1, 3)),
    "ttree": ((1, 0), (1, 0)),
    "tsat": ((1, 3), (1, 4)),
    "tflow": ((2, 1), (3, 1)),
    "tclock": ((2, 1), (3, 1)),
    "texec": ((1, 2), (2, 1)),
    "tsel": ((2, 1), (3, 1)),
    "trep": ((1, 0), (1, 0)),
    # Those of spec/Conc.tla: concurrent operations.
    "conc": ((3, 0), (4, 0)),
    "concend": ((3, 0), (3, 0)),
    # Those of spec/Loop.tla: ticks.
    "loop": ((4, 0), (6, 0)),
    # Those of spec/Blame.tla: programs, and functions in each.
    "blame": ((1, 2), (1, 3)),
    "blames": ((2, 0), (2, 1)),
}
TEST = {"tmsg", "ttree", "tsat", "tflow", "tclock", "texec", "tsel", "trep"}
CONC = {"conc", "concend"}
BLAME = {"blame", "blames"}

WORLDS = {
    "C01": ["chain", "proc"], "C02": ["chain", "ticks"], "C03": ["agg", "aggload"], "C04": ["proc"], "C05": ["ticks", "proc", "duecomp"],
    "C06": ["guard", "aggload"], "C07": ["chain", "ticks"], "C08": ["skip"], "C09": ["comp", "chain"], "C10": ["agg", "proc"],
    "C11": ["cancel", "chain", "duecomp"], "C13": ["agg", "proc"], "C14": ["proj", "comp"], "C15": ["comp", "proj", "duecomp"],
    "C12": ["conc", "concend"], "C23": ["loop"], "C32": ["blame", "blames"],
    "C27": ["cancel", "comp"],
    "C25": ["aggload", "proc", "comp"],
    "C26": ["agg", "proc", "ticks", "chain", "proj", "cancel", "guard", "skip", "duecomp"],
    "C16": ["tclock"], "C17": ["tmsg"], "C18": ["ttree", "tflow"], "C19": ["tsat"], "C20": ["texec"], "C21": ["tflow", "texec"], "C22": ["tsel"], "C24": ["tmsg"], "C31": ["trep"],
    "C29": ["tmsg", "ttree", "tsat", "tflow", "tclock", "texec", "tsel"],
}


def models(prop, tier):
    for w in WORLDS.get(prop, []):
        ops, calls = BOUNDS[w][tier != "quick"]
        mode = "test" if w in TEST else "conc" if w in CONC else "loop" if w == "loop" else "blame" if w in BLAME else "engine"
        module, unit, quick = {"test": ("TestMC", "%d steps, %d calls", 400), "engine": ("EngineMC", "%d operations, %d calls", 400),
                               "conc": ("ConcMC", "%d concurrent operations", 1200), "loop": ("LoopMC", "%d ticks", 400),
                               "blame": ("BlameMC", "%d programs, %d functions", 800)}[mode]
        yield dict(name=w, world=w, module=module, mode=mode, ops=ops, calls=calls, bounds=unit % (ops, calls)[:unit.count("%d")],
                   replay=quick if tier == "quick" else 20000)


def batches(prop, tier):
    for g in PLAN[prop].get("gen", []):
        b = {k: g[k] for k in ("mode", "profile", "isolate") if k in g}
        b["n"] = g[tier]
        b["name"] = "%s/%s" % (g["mode"], g["profile"])
        yield b

NOTE = ("The property is an automaton in TLA+ that TLC checks against a model of the system within bounds; the same automaton "
        "then validates every event of a bounded, seeded set of traces recorded from the real code, so behaviour outside those scenarios is not covered.")
