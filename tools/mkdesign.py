"""Writes DESIGN.md from DESIGN.in.md: the table of properties and that of planted bugs."""
import json
import os

import plan

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

KEEPS = {
    "C01": "per message, which consumers are enabled and which were begun and finished; at the end of an operation every enabled consumer of every message had it exactly once",
    "C02": "the queue of the operation as a sequence of sets (messages produced together by one handling stay in order, handlers of one message do not); each message handled must be at its head",
    "C03": "recorded events per instance; the digest of the root seen in each call is the fold of exactly those, and of nothing from another instance",
    "C04": "per instance the messages handled since it began; the digest of the root, begun/ended, mutation of ended roots",
    "C05": "multiset of pending timeouts with instance and time; a tick delivers exactly those that are due, in order of time, to live instances only",
    "C06": "the table of illegal messages (wrong type, invalid, undeclared, unrouted); each attempt panics in the caller, and nothing of it is ever seen",
    "C07": "envelopes as first reported: ID unique, cause, correlation, origin, instance, times; every later mention agrees",
    "C08": "the options in force; precedence of name over type over default; a skipped handler is reported with the reason and never called",
    "C09": "nesting of begun/completed facts, errors in them, and that every observer is told the same",
    "C10": "instances known to exist; loaded/created/begun/ended/destroyed facts are told exactly when that happened",
    "C11": "errors that handlers returned; the operation returns exactly those, attributed; after cancellation no message but the current one is delivered",
    "C12": "operations that have been called and not returned; callbacks of two operations never interleave, a reset takes place as a whole, IDs are unique between resets, waiting ends when cancelled, nothing is stuck, none crashes",
    "C13": "everything known before the reset is forgotten, handlers and configuration are not; the automata of C03, C04, C05, C10 and C15 start over",
    "C14": "protocol per event and projection: version asked, handled if and only if it is empty, closed if and only if applied, nothing after an error",
    "C15": "time of the last compaction per projection; due, skipped or not due at each tick; brackets; parallel compaction while handling",
    "C16": "the virtual clock; the engine time of every operation; effects (timeouts, compaction) of each advance, through C05 and C15",
    "C17": "messages produced by the action; the verdict of each leaf is recomputed from them and from what predicates answered",
    "C18": "set up, told, completed, asked: once each and in order, in every part of the tree; the verdict is the boolean function of the parts",
    "C19": "a small machine of SatisfyT (running, failed, skipped, clean-up stack) per function; called once, after the action, with all facts",
    "C20": "executions in progress; bound only inside an action that supports it, intercepted by the interceptor in force, its result returned unaltered",
    "C21": "whether the action failed or the expectation is unmet; Fatal/FailNow/panic exactly then, and what runs afterwards",
    "C22": "options set so far; each name or pattern that matches nothing is refused; the set enabled in each operation",
    "C23": "period, scale and start of the loop; time of every tick, options of each, how it stops",
    "C24": "why the expectation was not met, recomputed from options, engaged handlers and messages; the explanation and suggestions shown must be true",
    "C25": "after a panic: value and attribution in the caller; state of all instances as left by completed handlings, by embedding C03, C04, C05",
    "C26": "acceptor: the whole state of `Engine.tla`; each event must be one that the specification allows",
    "C27": "the context of the operation; value, deadline and done of the one each method gets",
    "C28": "each engine's or test's events replayed alone; the projection of the interleaved run must equal it",
    "C29": "acceptor: the whole state of `TestKit.tla`; each event must be one that the specification allows",
    "C30": "the line that each fact, step and text calls for, with its IDs, marks and texts; lines come in that order, none is missing or added",
    "C31": "the report as a tree of headings, sections and differences, computed from what expectations reported; compared part by part with the text",
    "C32": "places of the last call, of panics, of methods called and of the function given, as the user's code itself sees them; each complaint, action or expectation names one of those that it is about, and the right handler, method and message",
}

COST = json.load(open(os.path.join(HERE, "cost.json")))


def table():
    for p in sorted(KEEPS):
        w = ", ".join(plan.WORLDS.get(p, [])) or "-"
        b = ", ".join(sorted({g["mode"] + ("/" + g["profile"] if g["profile"] else "") for g in plan.PLAN[p]["gen"]}))
        yield "| %s | %s | %s | %s | %d s |" % (p, w, KEEPS[p], b, COST["wall"][p])


def seeded():
    yield "| planted bug | what it needs | caught by |"
    yield "|---|---|---|"
    for b in sorted(COST["caught"]):
        yield "| %s | %s | %s |" % (b, COST["needs"][b], ", ".join(COST["caught"][b]) or "**none**")


src = open(os.path.join(HERE, "DESIGN.in.md")).read()
src = src.replace("@TABLE@", "\n".join(table())).replace("@SEEDED@", "\n".join(seeded()))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(src)
