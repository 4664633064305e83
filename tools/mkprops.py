#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ENG = "engine/engine.go"
AGC, AGS = "engine/internal/aggregate/controller.go", "engine/internal/aggregate/scope.go"
PRC, PRS = "engine/internal/process/controller.go", "engine/internal/process/scope.go"
INC, INS = "engine/internal/integration/controller.go", "engine/internal/integration/scope.go"
PJC, PJS = "engine/internal/projection/controller.go", "engine/internal/projection/scope.go"

prop("C01", "Every message reaches each of its enabled consumers exactly once",
 """For every completed engine operation (one that neither panics nor has its context cancelled), the dispatched message and
 every command or event produced while handling it, transitively, is delivered exactly once to each enabled handler that the application
 routes that message type to, and is delivered to no other handler. Messages produced by a process handler that returns an error are delivered
 to nobody; those produced by any other handler are delivered even if that handler, or another handler of the same message, returns an error.
 When the operation returns, no produced command or event is still undelivered.""",
 ["histories", "configurations", "inputs"],
 "every application (any mix of handlers and routes), every tree of messages produced by its handlers, every sequence of operations and options",
 "The existing tests dispatch one or two fixed messages into a fixed application; they cannot enumerate fan-out trees, several consumers of one event, errors in the middle of a cycle, or long operation histories.",
 [ENG, "engine/configurer.go", AGC, PRC, INC, PJC],
 [("FIFO queue drained until empty", ENG+" dispatch()"), ("route table built from the configuration", "engine/configurer.go"), ("controllers return the envelopes they produced", AGC+", "+PRC+", "+INC)],
 ["handler callbacks (HandleCommand, RouteEventToInstance, HandleTimeout, ResourceVersion)", "scope methods called by handlers", "Engine.Dispatch / Engine.Tick results"],
 [("queue", "messages produced but not yet dispatched", ENG+" dispatch()"), ("routes", "consumers of each message type", ENG)])

prop("C02", "Messages are delivered in the order they were produced",
 """Within one engine operation messages are delivered first-in first-out: a message is not delivered to any handler until every message queued before it
 has been delivered to all of its handlers. One handler's messages are queued in the order it produced them, except that a process handler's commands precede those of its
 timeouts that are already due, and the messages of a handler that is invoked earlier precede those of a handler that is invoked later.""",
 ["histories", "configurations", "inputs"],
 "every tree of messages produced in one operation, any number of producers and consumers per message",
 "Tests observe at most one produced message per handler, so a reordering (depth-first handling, reversed batches, sorting) within wider or deeper trees is invisible to them.",
 [ENG, AGS, PRS, PRC, INS],
 [("append to the tail, take from the head", ENG+" dispatch()"), ("commands then ready timeouts", PRC+" Handle()")],
 ["order of handler callbacks"],
 [("queue", "messages produced but not yet dispatched", ENG+" dispatch()")])

prop("C03", "An aggregate's root is the fold of exactly its own recorded events",
 """Whenever an aggregate handles a command it is given a newly created root to which have been applied, in order, exactly the events that the same instance of the same handler has recorded
 while handling earlier commands since the engine was created or reset or the instance was last destroyed; no other instance or handler can affect it. Destroy() makes the instance revert to having no events once
 the command has been handled, unless an event is recorded after it on the same scope, in which case nothing is forgotten; a handler that panics leaves the instance as it was.
 An event recorded within a scope has been applied to the root that the handler was given by the time the call returns.""",
 ["histories", "inputs", "configurations"],
 "every sequence of commands, record/destroy sequences and panics over any number of instances and handlers",
 "Tests replay one or two events on one or two instances; interleavings of record, destroy, revert, re-create, panic and reset across instances over long histories are unbounded.",
 [AGC, AGS],
 [("per-instance event history replayed into a new root", AGC+" Handle()"), ("exists/destroyed flags", AGS)],
 ["AggregateMessageHandler.HandleCommand root argument", "AggregateRoot.ApplyEvent", "scope.InstanceID()"],
 [("history", "recorded events per instance", AGC)])

prop("C04", "Process instances persist from first event until ended, and only then",
 """A process handler that routes an event to an instance is given the root left behind by the last successful handling for that same instance of the same handler, or a newly created root if there is none
 (never handled successfully, or ended since); the state of one instance never reaches another. Calling End() removes the instance when handling succeeds unless a command is executed or a timeout scheduled after it on
 the same scope; a handler that returns an error or panics neither creates nor ends the instance (what it did to the root object it was given before failing is its own affair and is not undone). An event that the handler declines to route is not handled, and one that fails to route is not handled and fails the operation.""",
 ["histories", "inputs", "configurations"],
 "every sequence of events, timeouts, endings, reversals, errors and panics over any number of instances and handlers",
 "Tests drive a single instance through at most two messages; begin/end/re-begin cycles interleaved with errors over several instances are not reachable by a fixed list of examples.",
 [PRC, PRS],
 [("instances map updated only after success", PRC+" Handle()"), ("ended flag reverted by later messages", PRS)],
 ["ProcessMessageHandler.HandleEvent/HandleTimeout root argument", "scope.InstanceID()"],
 [("instances", "root of each live instance", PRC)])

prop("C05", "Timeouts fire exactly once, when due, only for live instances",
 """A timeout scheduled by a process instance (in a handling that succeeds and does not end the instance) is delivered exactly once, to the same instance of the same handler: during the same operation if its scheduled time is not after the current engine time, and
 otherwise during the first tick, with that handler enabled, whose time is not before the scheduled time -- never earlier. Timeouts of one handler that fall due in the same tick are delivered in order of their scheduled times.
 Once the instance has ended none of its outstanding timeouts is delivered to it, whatever other instances or handlers have scheduled (operations that panic or are cancelled may lose the timeouts they were delivering).""",
 ["histories", "inputs", "schedules"],
 "every history of scheduling, ticking (forwards and backwards in time, equal and nanosecond-adjacent times) and ending over any number of instances and handlers",
 "Tests schedule one or two timeouts on one instance; losing, duplicating, reordering or mis-cancelling timeouts needs many pending timeouts over several instances and ticks.",
 [PRC, PRS, ENG],
 [("pending timeouts sorted by time and split at now", PRC+" Tick()/Handle()"), ("deletion of an ended instance's timeouts", PRC)],
 ["ProcessMessageHandler.HandleTimeout", "ProcessTimeoutScope.ScheduledFor()"],
 [("timeouts", "pending timeouts of all instances of a handler", PRC)])

prop("C06", "Illegal messages are rejected by a panic and have no effect",
 """A handler that tries to produce a message of a type it does not declare as produced, or a message that fails its own validation, panics at that call with a value that identifies the handler, and the message is never
 delivered, recorded or applied. Routing a message to an empty instance ID, or creating a nil root, likewise panics before the message is handled. Dispatching a timeout, an invalid message, or a message that no handler consumes panics and invokes no handler; conversely no declared and valid message is rejected.""",
 ["inputs", "configurations", "histories"],
 "every handler configuration, message type, validity and position in a handler's sequence of scope calls, including handlers that recover from the panic and carry on",
 "Tests try each rejection once, as the first action of a fresh handler; they do not establish that nothing leaks after other scope calls, or for handlers that recover, or that legal messages of every type pass.",
 [AGS, PRS, INS, AGC, PRC, ENG, "engine/internal/panicx/unexpectedbehavior.go"],
 [("produced-type and validation checks before any effect", AGS+", "+PRS+", "+INS), ("Dispatch() argument checks", ENG)],
 ["panic values", "handler callbacks", "facts"])

prop("C07", "Every message carries true identity, causality, origin and time",
 """Every message that enters or is produced by an engine gets an ID that no other message has had since the engine was created or last reset; a dispatched message is its own cause and correlation root, and a produced message's cause is the message being handled and its
 correlation ID is that message's correlation ID, across any number of hops and across timeouts delivered in later operations. A produced message records the handler, handler type and instance that produced it and, for timeouts, the requested time; every message is stamped with the
 engine time of the operation in which it was created. Every later report of that message, and the recorded-at and scheduled-for times shown to handlers, repeat those same values.""",
 ["histories", "configurations", "inputs"],
 "every tree of messages over every sequence of operations, including timeouts that fire in later operations and resets",
 "Tests compare a single generation of envelopes; chains through several hops, handlers and ticks are not covered.",
 ["envelope/envelope.go", "envelope/id.go", AGS, PRS, INS, PRC, ENG],
 [("envelope constructors", "envelope/envelope.go"), ("ID generator", "envelope/id.go")],
 ["Envelope fields in facts", "scope.RecordedAt()/ScheduledFor()"])

prop("C08", "Only enabled handlers run, with the documented precedence",
 """In every operation a handler is enabled if the operation's options enable it by name and disabled if they disable it by name (the last such option wins); otherwise it is disabled if its own configuration disables it; otherwise its handler type decides (last option wins, enabled by default).
 None of a disabled handler's methods is invoked for a message or tick of that operation, and a skip notification with the matching reason is emitted for each message and tick it misses; an enabled handler is never skipped.""",
 ["configurations", "histories"],
 "every combination of type options, name options, configuration flags, handler types and messages",
 "Tests cover a handful of single-option combinations for single messages; interactions between options, handler types, produced messages and ticks form a large product.",
 [ENG, "engine/operationoption.go", "fact/dispatch.go"],
 [("skipHandler precedence", ENG), ("options applied in order over defaults", "engine/operationoption.go")],
 ["handler callbacks", "HandlingSkipped / TickSkipped facts"])

prop("C09", "The fact stream is complete, well nested and the same for all observers",
 """Every observer of an operation receives the same facts in the same order, one at a time and never concurrently, and they form properly nested begin/complete pairs (cycle, message, handler; cycle, tick, handler) with nothing missing or repeated, except that a panic or
 cancellation truncates what follows. Each call that a handler makes to record an event, execute a command, schedule a timeout, or log yields exactly one corresponding fact with the same content, inside the handling of that message by that handler, and no such fact appears without the call.""",
 ["histories", "schedules", "configurations"],
 "every application, message tree and operation, any number of observers, including projections that log while being compacted in parallel with handling",
 "Tests compare fact lists of single calls to one controller with one observer; whole-operation nesting, several observers and concurrent compaction are not exercised.",
 [ENG, "fact/observer.go", "fact/dispatch.go", "fact/tick.go", AGS, PRS, INS, PJS, PJC],
 [("begin/complete notifications around each step", ENG), ("observer group", "fact/observer.go")],
 ["fact.Observer.Notify"])

prop("C10", "Instance lifecycle facts tell what actually happened",
 """For each handled command the engine reports an aggregate instance as loaded if and only if it has events, and not found otherwise; it reports creation, destruction and the reversal of destruction exactly when a scope call has that effect.
 For each event or timeout it reports a process instance as loaded if and only if it is live, begun if and only if a new instance is started, ended and ending-reverted exactly when a scope call has that effect, and ignored if and only if the event was not routed or the timeout's instance is no longer live.
 The instance named in each report is the one the handler routed the message to.""",
 ["histories", "inputs"],
 "every history of commands, events, timeouts and scope calls over any number of instances",
 "Tests check each lifecycle fact once in its simplest situation.",
 [AGC, AGS, PRC, PRS, "fact/aggregate.go", "fact/process.go"],
 [("lifecycle notifications", AGC+", "+AGS+", "+PRC+", "+PRS)],
 ["aggregate and process facts"])

prop("C11", "Errors are all reported and attributed; cancellation stops promptly",
 """An operation succeeds if and only if every handler it invoked succeeded and its context was not cancelled; otherwise its error contains the error of every handling and tick that failed, once each, in the order they occurred and attributed to the name and type of that handler (if both the handling of an event and the parallel compaction of that projection fail, that of the handling), and the same errors appear in the corresponding completion facts.
 If the context is cancelled before a handler returns the operation returns the context's error and delivers no further message once the message being dispatched at that moment has been delivered to its handlers.""",
 ["fault_sequences", "histories"],
 "every placement of handler errors and cancellations over every message tree and tick",
 "Tests inject one error or one cancellation at one place.",
 [ENG, PJC, PRC, INC],
 [("multierr aggregation with name and type", ENG), ("context check after each message and tick", ENG)],
 ["error returned by Dispatch/Tick", "Error fields of completion facts"])

prop("C12", "Concurrent engine operations never interleave",
 """When several goroutines dispatch, tick and reset one engine, the handler invocations of one operation never overlap or interleave with those of another, so the effect on handlers is that of some sequential order of the operations. The functions that a reset calls count as a part of it, and no two messages delivered between two resets have the same ID.
 An operation whose context is cancelled while it waits for another returns the context's error and invokes no handler. The engine remains usable by other goroutines whichever way an operation ends, including by panic.""",
 ["schedules", "fault_sequences"],
 "every interleaving of concurrent dispatch, tick and reset calls, with cancellations and panics",
 "No existing test runs two operations concurrently with handlers observing overlap, nor checks what remains after a panic.",
 [ENG, "engine/executor.go"],
 [("context-aware mutex held for the whole operation", ENG+" Dispatch/Tick/Reset")],
 ["handler callbacks", "operation results"])

prop("C13", "After Reset an engine behaves like a new one",
 """After Reset() the engine behaves exactly like a newly created one: no aggregate event, process instance, pending timeout, compaction time or message ID from before has any influence on a later operation, and message IDs start again from the first one.
 Every reset function given to the engine is called exactly once per reset, in the order given.""",
 ["histories", "configurations"],
 "every history before the reset, every number and position of resets",
 "Tests reset each controller once after one message; leftovers of timeouts, compaction schedules or IDs only show in later operations.",
 [ENG, AGC, PRC, PJC, "envelope/id.go", "engine/engineoption.go"],
 [("Reset of controllers, IDs and user resetters", ENG)],
 ["handler callbacks", "facts", "envelope IDs", "reset callbacks"])

prop("C14", "Projections follow the optimistic-concurrency protocol for every event",
 """For every event delivered to a projection the engine asks for the version of a resource that belongs to that event alone, handles the event if and only if that version is empty, passing the same resource, an empty current version and a non-empty next version, and closes the resource if and only if
 handling was reported as applied without error. Errors from any of these steps are returned by the operation, and nothing later in the protocol is called after an error.""",
 ["fault_sequences", "histories"],
 "every combination of stored versions, results and errors over any sequence of events, operations and projections",
 "Tests cover each branch once with one event; resource reuse between events or handlers and combinations of faults are not covered.",
 [PJC],
 [("resource version check, handle, close", PJC+" Handle()")],
 ["ProjectionMessageHandler.ResourceVersion/HandleEvent/CloseResource"])

prop("C15", "Projection compaction runs on schedule and is properly bracketed",
 """A tick compacts each enabled projection if and only if at least one hour of engine time has passed since the tick at which that projection was last compacted by a tick (or it never has been), and never compacts a disabled one. If compaction during handling is enabled each handled event additionally runs one compaction of that projection,
 and otherwise handling never compacts. Every compaction is reported by one begin and one complete report carrying its error, its error fails the operation, the engine waits for it to finish before handling ends, and whatever it logs is reported between the two.""",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of tick times (including boundaries and time going backwards), errors, and interleavings of compaction with event handling",
 "Tests check one tick before and after the interval and one parallel compaction.",
 [PJC, PJS, "engine/engineoption.go"],
 [("lastCompact and compaction interval", PJC+" Tick()"), ("parallel compaction joined before returning", PJC+" Handle()")],
 ["ProjectionMessageHandler.Compact", "ProjectionCompactionBegun/Completed/MessageLogged facts"])

prop("C16", "A test's virtual clock only moves as told, and time-based effects follow",
 """A test's engine time starts at the configured start time (or the time the test began), changes only through time-advancing actions, and is what every action and handler of the test observes until the next change. Advancing by a duration or to a point in time sets it to exactly that sum or instant
 and fires exactly the timeouts that have become due, at the new time; an attempt to move time backwards fails the test without changing the clock or ticking.""",
 ["histories", "inputs"],
 "every sequence of actions with every start time, time zone, duration and target time",
 "Tests advance the clock once per test.",
 ["action.advancetime.go", "testoption.go", "test.go"],
 [("virtual clock shared with actions", "test.go"), ("AdvanceTime adjustments", "action.advancetime.go")],
 ["engine time and envelope creation times in facts", "scope.RecordedAt()", "calls on TestingT"])

prop("C17", "Message expectations pass exactly when the action produced a match",
 """An expectation that an action executes a command or records an event (equal to a value, of a type, or satisfying a predicate) passes if and only if at least one message of that kind produced by an enabled handler during that action matches (for actions that call user code, also commands that code executes through the test's executor); the message that the action itself injects never
 counts, nor do messages from other actions. An expectation that only matching messages are produced passes if and only if every message of that kind so produced is of the given type and is accepted or ignored by the predicate; a message that the predicate ignores is neither a match nor a rejection. A predicate is called once for each candidate message, in order, until the outcome is settled.""",
 ["histories", "inputs", "programs"],
 "every sequence and multiset of produced messages, every target value, type and predicate, every action kind",
 "Tests use one or two produced messages per expectation.",
 ["expectation.message.go", "expectation.messagetype.go", "expectation.messagematch.go", "expectation.messagecommon.go", "compare.go", "test.go"],
 [("fact observation and latched result", "expectation.message*.go")],
 ["TestingT.FailNow", "predicate invocations"])

prop("C18", "Composed expectations have exactly their boolean meaning",
 """For every nesting of all-of, any-of, none-of, negation and repetition, the composed expectation passes if and only if the corresponding boolean combination of its parts' outcomes is true, and the test report marks the whole, and every part that it shows, with its own outcome.
 Every part is notified of every fact of the action exactly once and in order and is completed exactly once, after the action and before its outcome is consulted; if any part cannot be evaluated, the whole cannot, and the action is not performed.""",
 ["programs", "histories"],
 "every expectation tree over every combination of leaf outcomes",
 "Tests use depth-one trees with a few leaf combinations.",
 ["expectation.composite.go", "expectation.repeat.go", "expectation.go", "test.go"],
 [("composite predicates", "expectation.composite.go"), ("repeat predicate", "expectation.repeat.go")],
 ["Predicate method calls", "TestingT.FailNow", "report text"])

prop("C19", "ToSatisfy evaluates its function once, over all facts, with test semantics",
 """A user-defined satisfaction function runs exactly once per expectation, after the action has finished, with every fact of that action in order and the options in effect; the expectation passes if and only if the function (including its cleanups) did not mark itself as failed, or was skipped. FailNow-style and skip-style calls stop the function at that point
 but nothing else, any other panic propagates, and every registered cleanup runs exactly once after the function has stopped for any reason, last registered first, even if another cleanup fails, skips or registers more.""",
 ["programs", "inputs"],
 "every sequence of assertions, logs, skips, failures, panics and cleanup registrations, including inside cleanups",
 "Tests call each method once.",
 ["expectation.satisfy.go"],
 [("buffered facts and deferred evaluation", "expectation.satisfy.go")],
 ["calls made by the function", "TestingT.FailNow", "report text"])

prop("C20", "The command executor works only inside actions that support it",
 """Commands executed through a test's executor by code run inside a call action are dispatched to the application with that action's engine time, options and observers, and their errors are returned to the caller; outside of such an action (before, after, between, or during other actions) the executor panics and nothing is dispatched.
 While an interceptor is installed each execution calls it exactly once instead, and the command is dispatched only as often as the interceptor asks; an interceptor given to one action applies to that action only and the previous one is back afterwards, even if the action fails or panics.
 The action does not end while an execution started through it is still running.""",
 ["histories", "schedules", "programs"],
 "every sequence of executor calls and actions, with and without interceptors, from one or several goroutines",
 "Tests call the executor once per action from one goroutine.",
 ["executor.go", "action.call.go", "testoption.go", "test.go"],
 [("bind/unbind around the action", "action.call.go"), ("read/write lock", "executor.go")],
 ["ExecuteCommand results and panics", "handler callbacks", "interceptor calls"])

prop("C21", "A test fails exactly when an action errors or an expectation is unmet",
 """Expect() performs its action exactly once, then fails the test if and only if the action returned an error or the expectation was not met, and Prepare() performs each action once, in order, and fails the test if and only if one returned an error. Expecting a message of a type that the application does not use, or (unless the action itself can execute commands) that none of its handlers is declared to
 produce, fails the test without performing the action. Nothing of one expectation, such as its options, observers or outcome, carries over to a later step.""",
 ["histories", "programs", "configurations"],
 "every sequence of prepare and expect steps with every action and expectation outcome",
 "Tests use one step per test.",
 ["test.go", "action.dispatch.go", "expectation.messagecommon.go", "expectation.go"],
 [("Expect/Prepare control flow", "test.go"), ("guards on impossible expectations", "expectation.messagecommon.go")],
 ["calls on TestingT", "handler callbacks", "action invocations"])

prop("C22", "Handler selection by name or pattern is exact and last-wins",
 """In a test, integrations and projections are disabled and aggregates and processes enabled unless changed; enabling or disabling by name affects exactly the named handlers and by pattern exactly the handlers whose names match any of the patterns, for all later actions, and the latest change to a handler wins.
 Naming a handler that does not exist, enabling by name one that its configuration disables, or giving a pattern that matches no configured-enabled handler panics; a pattern never enables a handler that its configuration disables.""",
 ["configurations", "histories"],
 "every set of handler names and every sequence of selections and actions",
 "Tests make one selection on a small application.",
 ["test.go", "engine/operationoption.go"],
 [("operation options appended in order", "test.go")],
 ["handler callbacks during later actions", "panics"])

prop("C23", "The run loop ticks with faithful, scaled time until stopped",
 """Run and RunTimeScaled tick the engine immediately and then repeatedly at the given interval until the context is cancelled or a tick fails, and return the context's error or that tick's error respectively; no tick is started after that.
 Each tick's engine time equals the given start time plus the elapsed real time multiplied by the factor, so it never decreases for positive factors, and the caller's options apply to every tick.""",
 ["schedules", "fault_sequences", "inputs"],
 "every cancellation moment, failing tick, factor and start time",
 "Tests run the loop for one tick.",
 ["engine/run.go"],
 [("loop with rewritten time option", "engine/run.go")],
 ["TickCycleBegun facts", "returned error"])

prop("C24", "A failed message expectation is explained truthfully",
 """When an expectation about a produced message is not met and the test fails, the report explains it by what really happened during that action: that a similar message (one of the same type) was produced, and by which handler or executor; else that no type of handler able to produce such messages was enabled; else that no such handler was engaged; else that no messages,
 or none of that kind, were produced at all; else that none of those produced matched, with the true numbers of matching and relevant messages for an expectation about all of them. It never claims that something happened that did not: every rejection it lists was made by the predicate, as often as stated and for that type, every handler it suggests to verify was engaged and can
 produce such messages, and every handler type it suggests to enable was disabled.""",
 ["histories", "configurations"],
 "every combination of enabled handlers, produced messages and expectations",
 "Tests check one report per branch.",
 ["expectation.messagecommon.go", "expectation.message.go", "expectation.messagetype.go", "expectation.messagematch.go"],
 [("tracker of produced messages and engaged handlers", "expectation.messagecommon.go")],
 ["report text passed to TestingT.Log"])

prop("C25", "A panic in a handler reaches the caller intact and leaves a usable engine",
 """A panic in any handler method reaches the caller of the operation: unchanged, except that a report of an unexpected message is enriched with the handler, method and message concerned. The operation is abandoned at that point: the panicking handling produces no message, and creates, ends or destroys no instance and adds no event or pending timeout to one,
 no further handler is invoked, and later operations work normally on exactly the state left by the handlings that completed.""",
 ["fault_sequences", "histories"],
 "every handler method and every point of every message tree at which a panic occurs, followed by any later operations",
 "Tests make a handler method panic once on a fresh controller and look only at the panic value.",
 [ENG, "engine/internal/panicx/unexpectedmessage.go", AGC, PRC, INC, PJC],
 [("deferred unlock", ENG), ("state committed only after the handler returns", AGC+", "+PRC), ("panic enrichment", "engine/internal/panicx/unexpectedmessage.go")],
 ["recovered panic values", "handler callbacks of later operations"])

prop("C26", "What an engine does is determined by what it is given",
 """Given an application, the operations performed on the engine with their options, and what each handler does when it is called, everything the engine does is determined: which handler methods it calls, with which arguments and in which order, which facts it reports, and what each operation returns.
 What is left open is only the order in which the handlers of one message or of one tick are visited, the order of timeouts that are scheduled for the same instant, and the text of message IDs.""",
 ["histories", "programs", "configurations", "fault_sequences"],
 "every application, every sequence of operations and options, every behaviour of the handlers including errors, panics and cancellation",
 "The tests compare a few fixed histories with fixed expectations; they cannot say of an arbitrary history whether the engine did anything else than it had to.",
 [ENG, "engine/configurer.go", AGC, AGS, PRC, PRS, INC, INS, PJC, PJS, "fact/"],
 [("operations, queue and lock", ENG), ("controllers", AGC+", "+PRC+", "+INC+", "+PJC)],
 ["every handler callback with its arguments", "every scope method and its result", "every fact", "every operation's result"],
 [("whole engine state", "queue, histories, instances, pending timeouts, compaction times", ENG+" and the controllers")])

prop("C27", "A handler runs under the context of the operation that invoked it",
 """Every handler method that takes a context (routing an event, handling a message, asking for or closing a resource version, and compaction, also when it runs in parallel with handling) is given a context that carries the values and the deadline of the context that was passed to the operation, and that is done exactly when that one is.
 In a test, actions run under the context that the test was begun with, and a command that is executed through the test's or an engine's command executor runs, also when it is intercepted, under the context given to that executor.""",
 ["histories", "configurations", "fault_sequences"],
 "every handler method reached by any operation, with any values, deadline and cancellation of the operation's context",
 "Tests pass context.Background() almost everywhere and do not look at the context that handlers get.",
 [ENG, "engine/executor.go", "engine/run.go", "executor.go", "test.go", AGC, PRC, INC, PJC],
 [("the operation's context is passed down", ENG+", "+PRC+", "+INC+", "+PJC), ("the executor passes its own context", "engine/executor.go, executor.go")],
 ["values, deadline and error of the context given to each handler method"])

prop("C28", "Engines and tests do not influence each other",
 """Engines, and likewise tests, are independent: what one of them does is the same whether or not others exist, also when they are made from the same application and handlers, when tests perform the same actions and check the same expectations, and when one of them is used while a handler or function of another is running.
 No instance, event, timeout, compaction, message ID, clock, handler selection, executor binding, observer or outcome of one is visible in another.""",
 ["histories", "configurations", "schedules"],
 "every interleaving of operations of several engines, or of steps of several tests, that share handlers, actions and expectations",
 "Each existing test uses one engine and one test at a time with handlers, actions and expectations of its own.",
 [ENG, "engine/configurer.go", "envelope/id.go", "test.go", "executor.go", "action.call.go", "action.dispatch.go", "action.advancetime.go", "expectation.go", "expectation.composite.go", "expectation.messagematch.go", "expectation.satisfy.go"],
 [("all state is held by one engine or test", ENG+", test.go"), ("actions and expectations make new state for each use", "action.*.go, expectation.*.go")],
 ["handler callbacks, facts and results of each engine", "verdicts, reports and clock of each test"])

prop("C29", "What a test does is determined by its program",
 """Given an application, the options a test was begun with, the steps it takes, and what the functions given to it (handlers, interceptors, called functions, predicates and requirements) do when they are called, everything the test does is determined: which operations it performs on its engine, at which time, with which handlers enabled and in which order, which functions it calls and how often, what each expectation is told, whether each step passes, is failed or panics and whether the steps after it run, and the outline and verdict of every report.
 What is left open is only what the engine itself leaves open, the moment at which message predicates are called, and the order in which the parts of a composite expectation are told the same thing.""",
 ["histories", "programs", "configurations", "fault_sequences"],
 "every sequence of steps with any actions and expectations, any behaviour of the functions given to them, and testing.T implementations that do or do not stop the test on failure",
 "Existing tests take one or two steps with one expectation each and compare a fixed report; they cannot say of an arbitrary program whether the test did anything else than it had to.",
 ["test.go", "executor.go", "action.call.go", "action.dispatch.go", "action.advancetime.go", "expectation.go", "expectation.composite.go", "expectation.message.go", "expectation.messagematch.go", "expectation.messagetype.go", "expectation.satisfy.go", "expectation.not.go", "expectation.repeat.go", "expectation.messagecommon.go", "report.go"],
 [("steps, clock and failure", "test.go"), ("actions", "action.call.go, action.dispatch.go, action.advancetime.go"), ("expectations", "expectation.*.go"), ("executor binding and interception", "executor.go, action.call.go")],
 ["operations on the engine with their options", "calls of every function given to the test", "verdict and report of every step", "how each step ends"],
 [("whole test state", "engine state, virtual clock, enabled handlers, interceptor and executor binding, state of the current expectation", "test.go")])

prop("C30", "The log tells what happened, in order and about the right message",
 """A test logs, and an engine given a logger as observer logs, exactly one line for each thing that happened that is worth telling: each operation with its time and enabled handlers, each message dispatched, each handler skipped and why, each failure of a handler, each instance that was loaded, begun, created, ended, destroyed or not found, each message produced, each compaction, and each text logged by a handler.
 The lines come in the order in which these things happened, and each shows the IDs of the message concerned and of its cause and root, the handler and instance, and the texts unaltered. A test announces each action, and what it expects of it, before performing it and announces nothing else.""",
 ["histories", "programs", "inputs"],
 "every history of operations, behaviour of the handlers and sequence of test steps, and texts that contain formatting directives",
 "Tests log each fact once on its own with fixed texts and compare captions of single actions.",
 ["fact/logger.go", "fact/internal/logging/", "test.go", "action.call.go", "action.dispatch.go", "action.advancetime.go", "expectation.composite.go"],
 [("facts rendered as log lines", "fact/logger.go"), ("captions of actions and expectations", "test.go, action.*.go, expectation.*.go")],
 ["lines given to TestingT.Log and to the logger's function"])

prop("C31", "A test report shows all that its expectations reported, unaltered",
 """A step that checks an expectation reports exactly once, and the report has one part for each expectation that is composed into the one being checked (only the first failing one of a repetition, and none below a negation), nested as they are composed. Each part shows its mark, its criteria and its outcome, then the explanation and the sections that were added to it: each section once, in the order they were first mentioned, with everything added to it in order and unaltered, and sections to which nothing was added left out.
 For functions given to ToSatisfy() it shows every text they logged and the place in the user's code, leaving out helpers, of the call that first failed or skipped. Where a message is compared with a similar one, both can be read from the report in full, and every annotation of a value is shown next to that value and nowhere else.""",
 ["programs", "inputs", "histories"],
 "every tree of expectations with any reports, texts (also of several lines or with formatting directives), log messages, helpers, messages and annotations",
 "Existing tests compare the reports of single expectations with fixed texts and never combine sections, sub-reports, helpers and annotations.",
 ["report.go", "internal/report/", "expectation.satisfy.go", "expectation.message.go", "expectation.messagecommon.go", "expectation.composite.go", "expectation.repeat.go", "expectation.not.go", "test.go"],
 [("rendering", "report.go"), ("where a function failed", "expectation.satisfy.go"), ("differences", "internal/report/, expectation.message.go"), ("annotations", "test.go")],
 ["the text of every report given to TestingT.Log"])

prop("C32", "Complaints, actions and expectations name the user's code they are about",
 """When the engine complains about a handler, the value it panics with names the handler, the method and implementation, and the message that is being handled, and gives a place in the user's code: for an undeclared or invalid message the line that makes the call on the scope, for an unexpected message the line that panics (or that panics again with what it recovered), however deep below the handler's method and through whatever kinds of functions it is called, and for an empty instance ID or a nil root the method that returned it.
 An action gives the line at which it was made, and the announcement and report of an expectation about matching messages give the line of the function that decides. Places of earlier complaints have no influence.""",
 ["programs", "histories"],
 "every depth and kind (function, method, closure, generic, deferred, recovering) of functions between the system and the code in question, for every way of provoking a complaint, in any sequence",
 "Existing tests call from the top of a test function or directly from a handler's method.",
 ["location/location.go", "engine/internal/panicx/", "engine/internal/aggregate/", "engine/internal/process/", "engine/internal/integration/scope.go", "action.call.go", "action.dispatch.go", "action.advancetime.go", "expectation.messagematch.go"],
 [("places", "location/location.go"), ("values of panics", "engine/internal/panicx/"), ("places of actions", "action.*.go")],
 ["the values that operations panic with", "the result of an action's Location()", "captions and reports of expectations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
